From 5ee4cd847f164d89a19ecdbb3ebfcec556428ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 01/30] fix: FilterObject.Match panics on an ID shorter than
 the filter

---
 filtering/filter_object.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..c99bdd1 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -56,6 +56,10 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
+	// an id too short to contain the filter can't be captured
+	if len(id) < f.ByteOffset+f.ByteSize {
+		return false
+	}
 	for i := 0; i < f.ByteSize; i++ {
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
-- 
2.43.0


From 99e4bd8078ceebca056ab9d8bacc2e1647e9c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/30] fix: a pattern that cannot be converted must not become
 a match-all filter

---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From d20f12f1a656b9ce2ea0f3f531607de4ff8c9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 03/30] fix: compute the ISO 17363 check digit from owner code,
 equipment id and serial

---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From faef50d8b5499576876fb34c757818e5b5dd2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 04/30] fix: PatriciaTrie never reports the subscription at its
 root

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..e4958a2 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// check if the common prefix itself is a subscription
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 8309b0f1491bc7a2f452d2089f26c6de65a8cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:34 +0000
Subject: [PATCH 05/30] fix: adding a broader filter to PatriciaTrie drops the
 narrower ones

---
 filtering/patricia_trie.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index e4958a2..eb1c9e7 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,15 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs is broader than this node
+			ptn.reportURI = reportURI
+			ptn.one = nil
+			ptn.zero = nil
+			if newNode.filterObject.String[0] == '1' {
+				ptn.one = newNode
+			} else {
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From e7827d76dce25ff7c07d40539dd893fde11828da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 06/30] fix: PatriciaTrie deletes other destinations
 subscriptions and keeps the last one

---
 filtering/patricia_trie.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index eb1c9e7..70211d8 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -322,6 +322,9 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
+		if ptn.reportURI != reportURI { // no such subscription
+			return
+		}
 		if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
@@ -336,6 +339,8 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 			ptn.reportURI = ptn.zero.reportURI
 			ptn.one = ptn.zero.one
 			ptn.zero = ptn.zero.zero
+		} else { // the last subscription is at the root
+			ptn.reportURI = ""
 		}
 		return //end
 	}
@@ -346,6 +351,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
+					ptn.one.reportURI == reportURI &&
 					ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
 				} else {
@@ -355,6 +361,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
+					ptn.zero.reportURI == reportURI &&
 					ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
 				} else {
-- 
2.43.0


From e8b49297c4d29d4e8aee458fbe82143aeb5fb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 07/30] fix: PatriciaTrie decodes the zero branch only when
 there is a one branch

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 70211d8..e5fd84a 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 2cd69cbbf9e5e0c5bb2e56565aa2536c23d22cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 08/30] fix: SplayTree moves nested subsets to the root of the
 tree on search

---
 filtering/splay_tree.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..f2e3631 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -316,13 +316,18 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+// splaySearch searches the chain of siblings starting with *root, where stn is
+// the current sibling and parent is the previous one
+func (stn *SplayTreeNode) splaySearch(root **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		// an aggregation node has no reportURI
+		if len(stn.reportURI) != 0 {
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
 		// 0. Check if this is the root node, do nothing if so
@@ -330,13 +335,13 @@ func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id [
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
 			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			stn.mismatchNext = *root
+			*root = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(root, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From 2f088a339edd5f3ffaaf5f7d1905c796d0909752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 09/30] fix: SplayTree without any subscription panics on
 search and add

---
 filtering/splay_tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index f2e3631..242349e 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -358,7 +358,11 @@ func NewSplayTree(sub Subscriptions) Engine {
 
 	// build SplayTree
 	st.root = &SplayTreeNode{}
-	st.root = st.root.build(bsub)
+	if len(bsub) == 0 { // no subscription yet, start with an aggregation node
+		st.root.filterObject = NewFilter("", 0)
+	} else {
+		st.root = st.root.build(bsub)
+	}
 
 	// initialize the tdt.Core
 	st.tdtCore = tdt.NewCore()
-- 
2.43.0


From b7bcc664c51e3f6a606adbb40428c6f246b819f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 10/30] fix: SplayTree hides a broader filter added after its
 subsets

---
 filtering/splay_tree.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 242349e..e7f09aa 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -197,6 +197,29 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		// push down the current node and take its place
+		subset := &SplayTreeNode{
+			reportURI:    stn.reportURI,
+			filterObject: NewFilter(stn.filterObject.String[len(fs):], stn.filterObject.Offset+len(fs)),
+			matchNext:    stn.matchNext,
+		}
+		stn.filterObject = NewFilter(fs, stn.filterObject.Offset)
+		stn.reportURI = reportURI
+		stn.matchNext = subset
+		// the other subsets of fs in the mismatching branch follow
+		prev := stn
+		for node := stn.mismatchNext; node != nil; node = prev.mismatchNext {
+			if !strings.HasPrefix(node.filterObject.String, fs) {
+				prev = node
+				continue
+			}
+			prev.mismatchNext = node.mismatchNext
+			node.filterObject = NewFilter(node.filterObject.String[len(fs):], node.filterObject.Offset+len(fs))
+			node.mismatchNext = nil
+			subset.mismatchNext = node
+			subset = node
+		}
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
-- 
2.43.0


From 59fbf617a3294d39af803ee01127dc0a81e38e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 11/30] fix: SplayTree deletes other destinations subscriptions
 and keeps the last one

---
 filtering/splay_tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index e7f09aa..eae787c 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -259,7 +259,11 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.reportURI != reportURI { // no such subscription
+				return
+			}
+			if stn.matchNext == nil && stn.mismatchNext == nil { // the last subscription is at the root
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -277,6 +281,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
+					stn.matchNext.reportURI == reportURI &&
 					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
@@ -287,6 +292,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
+				stn.mismatchNext.reportURI == reportURI &&
 				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
 				stn.mismatchNext = nil
 			} else {
-- 
2.43.0


From 470ac7df21d6fd5b8ae516dd4f6c3c0eb162c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 12/30] fix: LegacyEngine deletes from a stale list and shares
 the caller's slices

---
 filtering/legacy_engine.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..8b3c0f6 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -19,13 +19,9 @@ type LegacyEngine struct {
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
-		} else {
-			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
-				}
+		for _, dest := range sub[f] {
+			if stringIndexInSlice(dest, le.filters[f]) < 0 {
+				le.filters[f] = append(le.filters[f], dest)
 			}
 		}
 	}
@@ -34,10 +30,11 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
+				reportURIs := le.filters[f]
 				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
 					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
 				}
-- 
2.43.0


From 15c6e5447fc7d793563f0fbc3f399cdcd80d03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 13/30] fix: LegacyEngine.UnmarshalBinary never restores the
 subscriptions

---
 filtering/legacy_engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 8b3c0f6..4d74e0f 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -149,6 +149,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	le.filters = Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -160,12 +161,15 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		le.filters[f] = reportURIs
 	}
 
 	// tdt.Core
-- 
2.43.0


From 3063f1a3807a813de7e052a3717312357a74a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 14/30] fix: LegacyEngine matches partial EPC fields and
 unknown pattern types

---
 filtering/legacy_engine.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 4d74e0f..7adeec3 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -121,8 +121,15 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
 			case "iso17365":
 				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)
+			default:
+				// unknown patternType
+				continue
+			}
+			if !strings.HasPrefix(patternType, "iso") && !strings.HasSuffix(pattern, ":") {
+				// the fields of EPC must match as a whole
+				pattern += "."
 			}
-			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:"), pattern) {
+			if strings.HasPrefix(strings.TrimPrefix(pureIdentity, "urn:epc:id:")+".", pattern) {
 				reportURIs = append(reportURIs, reportURI)
 			}
 		}
-- 
2.43.0


From 471021c9e7a7d4f88f1be3aaee5f1ea21d52f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 15/30] fix: Translate panics or returns malformed identities
 for invalid EPC bits

---
 tdt/core.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..29a8703 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -81,8 +81,53 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 	return c.buildProprietary(id)
 }
 
+// validateEPC96 returns an error if the id isn't a 96-bit EPC in the supported
+// schemes or any of its fields has more digits than the partition allows
+func validateEPC96(id []byte) error {
+	if len(id) != 12 {
+		return errors.New("Invalid ID")
+	}
+	var pt PartitionTable
+	var refBits, refDigits PartitionTableKey
+	switch id[0] {
+	case 48:
+		pt, refBits, refDigits = SGTIN96PartitionTable, IRBits, IRDigits
+	case 49:
+		pt, refBits, refDigits = SSCC96PartitionTable, EBits, EDigits
+	case 51:
+		pt, refBits, refDigits = GRAI96PartitionTable, ATBits, ATDigits
+	case 52:
+		pt, refBits, refDigits = GIAI96PartitionTable, IARBits, IARDigits
+	default:
+		return fmt.Errorf("unknown EPC header: %v", id[0])
+	}
+	partition := int((id[1] & 28) >> 2) // 28: 00011100
+	for cpLength, v := range pt {
+		if v[PValue] != partition {
+			continue
+		}
+		// the company prefix starts at the 14th bit and the reference follows
+		z := new(big.Int).SetBytes(id)
+		bitsAt := func(offset int, size int) *big.Int {
+			mask := new(big.Int).Lsh(big.NewInt(1), uint(size))
+			mask.Sub(mask, big.NewInt(1))
+			return mask.And(mask, new(big.Int).Rsh(z, uint(96-offset-size)))
+		}
+		cp := bitsAt(14, v[CPBits])
+		ref := bitsAt(14+v[CPBits], v[refBits])
+		if len(cp.String()) > cpLength || (v[refDigits] != 0 && len(ref.String()) > v[refDigits]) {
+			return errors.New("field value out of range")
+		}
+		return nil
+	}
+	return fmt.Errorf("invalid partition: %v", partition)
+}
+
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
+	if err := validateEPC96(id); err != nil {
+		return "", err
+	}
 
 	// EPC Header
 	switch id[0] {
-- 
2.43.0


From 747539a441b8cce9fd51fbc303003dd70f887c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 16/30] fix: patterns with empty, non-numeric or out-of-range
 fields become arbitrary filters

---
 tdt/epc.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 tdt/iso.go | 24 ++++++++++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..eb941f6 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -78,6 +78,36 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkFields returns an error if any of the fields of an EPC pattern (filter,
+// companyPrefix, reference, serial) isn't a decimal number allowed in the scheme
+func checkFields(fields []string, pt PartitionTable, refDigits PartitionTableKey) error {
+	for i, field := range fields {
+		n, err := strconv.ParseUint(field, 10, 63)
+		if err != nil || field[0] == '+' {
+			return fmt.Errorf("wrong fields: %q", fields)
+		}
+		switch i {
+		case 0: // filter
+			if n > 7 {
+				return fmt.Errorf("invalid filter: %q", field)
+			}
+		case 1: // companyPrefix
+			if _, ok := pt[len(field)]; !ok {
+				return fmt.Errorf("invalid companyPrefix: %q", field)
+			}
+		case 2: // itemReference, extension, assetType, or indivisualAssetReference
+			if digits := pt[len(fields[1])][refDigits]; len(field) > digits && len(field) > 1 {
+				return fmt.Errorf("invalid reference: %q", field)
+			}
+		case 3: // serial
+			if n >= 1<<38 {
+				return fmt.Errorf("invalid serial: %q", field)
+			}
+		}
+	}
+	return nil
+}
+
 // getAssetType returns Asset Type as rune slice
 func getAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -179,6 +209,10 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GIAI96PartitionTable, IARDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +242,10 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GRAI96PartitionTable, ATDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +281,10 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SGTIN96PartitionTable, IRDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +320,10 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SSCC96PartitionTable, EDigits); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..2e0e2a5 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -27,6 +27,22 @@ func getISO6346CD(cn string) (int, error) {
 	return (int(n) - int(n/11)*11) % 10, nil
 }
 
+// check6BitFields returns an error if any of the fields is empty or contains a
+// character that has no 6-bit encoding
+func check6BitFields(fields []string) error {
+	for _, field := range fields {
+		if field == "" {
+			return fmt.Errorf("wrong fields: %q", fields)
+		}
+		for _, r := range field {
+			if r < ' ' || '_' < r {
+				return fmt.Errorf("wrong fields: %q", fields)
+			}
+		}
+	}
+	return nil
+}
+
 // pad6BitEncodingRuneSlice returns a new length
 // and 16-bit (word-length) padded binary string in rune slice
 // @ISO15962
@@ -53,6 +69,10 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
@@ -99,6 +119,10 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := check6BitFields(fields); err != nil {
+		return "", err
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
-- 
2.43.0


From 47ab43eed6d923166fa3437ad48ecfcfd6c4a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 17/30] fix: patterns loaded with an upper case urn:epc:pat:
 prefix are never matched

---
 filtering/subscriptions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..796dcbb 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -172,7 +172,8 @@ func LoadSubscriptionsFromCSVFile(f string) Subscriptions {
 				if _, ok := sub[reportURI]; !ok {
 					sub[reportURI] = []string{}
 				}
-				sub[reportURI] = append(sub[reportURI], pat)
+				// the prefix is case-sensitive elsewhere
+				sub[reportURI] = append(sub[reportURI], "urn:epc:pat:"+pat[len("urn:epc:pat:"):])
 				numFilters++
 			}
 		}
-- 
2.43.0


From ee746e292d554199b669a46ffeef63429eb5b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 18/30] fix: StatManager re-sends all the earlier points with
 every write

---
 monitoring/stat_manager.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..d02cd2a 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -31,15 +31,6 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
 	smc := make(chan StatMessage)
 
@@ -95,6 +86,14 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err != nil {
 				log.Fatal(err)
 			}
+			// create a new point batch
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
 			bp.AddPoint(pt)
 
 			// write the batch
-- 
2.43.0


From b664b48718da0c775c6de65f1bf7ae3913860d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 19/30] fix: gobtags accepts a malformed ID as an empty one

---
 cmd/gobtags/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..48be0c0 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -25,7 +25,7 @@ var (
 func makeByteID(s string) ([]byte, error) {
 	id, err := binutil.ParseBinRuneSliceToUint8Slice([]rune(s))
 	if err != nil {
-		return []byte{}, nil
+		return []byte{}, err
 	}
 	return binutil.Pack([]interface{}{id}), err
 }
-- 
2.43.0


From dc4abbf30cc634d7694097175ef8240fc1002779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 20/30] fix: pattern text of a filter chosen at random lacks
 the filter value

---
 scheme/epc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..3b30abf 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -233,6 +233,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 
 	//CP
 	if cp == "" {
@@ -300,6 +303,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
@@ -366,6 +372,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
-- 
2.43.0


From 113a2d1e618eb1b459c0ae7c5e1b0e02c40bd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 21/30] fix: EngineFactory receives its own messages to the
 main channel

---
 filtering/engine_factory.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..eaba7e1 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -84,9 +84,10 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators; mainChannel is only sent to, receiving
+	// from it here would take the messages away from the main routine
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From 87cddc9566ddb4ec106eda43174ff6dc5cc5936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 22/30] fix: matched events are counted outside of the traffic
 monitor

---
 filtering/engine.go           |  6 ------
 filtering/engine_generator.go | 25 ++++++++++++++++---------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/filtering/engine.go b/filtering/engine.go
index 1f6ab42..2930edb 100644
--- a/filtering/engine.go
+++ b/filtering/engine.go
@@ -8,7 +8,6 @@ package filtering
 import (
 	"fmt"
 	"log"
-	"time"
 
 	"github.com/iomz/go-llrp"
 )
@@ -40,11 +39,6 @@ var AvailableEngines = Engines{
 }
 
 /* internal helper func */
-// timeTrack measures the time it taken from the start
-func timeTrack(start time.Time, tpech chan time.Duration) {
-	tpech <- time.Since(start)
-}
-
 // findPartialLCP discovers the the commonPrefix of which the majority share
 // reutrns the prefix and the size of the majority in len(l)
 func findPartialLCP(l []string) (string, int) {
diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..bd14e47 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -23,7 +23,7 @@ type EngineGenerator struct {
 	Name                string
 	Engine              Engine
 	managementChannel   chan ManagementMessage
-	timePerEventChannel chan time.Duration
+	timePerEventChannel chan searchRecord
 	totalTime           int64
 	CurrentThroughput   float64
 	EventCount          int64
@@ -31,6 +31,12 @@ type EngineGenerator struct {
 	statInterval        int
 }
 
+// searchRecord is what a Search tells the throughput monitor
+type searchRecord struct {
+	elapsed time.Duration
+	matched bool
+}
+
 // NewEngineGenerator returns the pointer to a new EngineGenerator instance
 func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc chan ManagementMessage) *EngineGenerator {
 	eg := &EngineGenerator{
@@ -64,19 +70,22 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 		},
 	)
 
-	eg.timePerEventChannel = make(chan time.Duration)
+	eg.timePerEventChannel = make(chan searchRecord)
 	go func() {
 		intervalTicker := time.NewTicker(time.Duration(eg.statInterval) * time.Second)
 
 		for {
 			select {
-			case t, ok := <-eg.timePerEventChannel:
+			case r, ok := <-eg.timePerEventChannel:
 				if !ok {
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
-				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, t.Nanoseconds())
-				eg.totalTime += t.Nanoseconds() / 1000 // microseconds
+				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, r.elapsed.Nanoseconds())
+				eg.totalTime += r.elapsed.Nanoseconds() / 1000 // microseconds
 				eg.EventCount++
+				if r.matched {
+					eg.MatchedCount++
+				}
 			case <-intervalTicker.C:
 				//log.Printf("%v, %v, %v", eg.Name, eg.EventCount, eg.MatchedCount)
 				eg.managementChannel <- ManagementMessage{
@@ -106,11 +115,9 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 
 // Search do search in the generated engine
 func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
-	defer timeTrack(time.Now(), eg.timePerEventChannel)
+	start := time.Now()
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
-	if len(reportURIs) != 0 {
-		eg.MatchedCount++
-	}
+	eg.timePerEventChannel <- searchRecord{elapsed: time.Since(start), matched: len(reportURIs) != 0}
 	return pureIdentity, reportURIs, err
 }
 
-- 
2.43.0


From 4779895de79817732f573e719cf60ccfe6e3467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 23/30] fix: sub-microsecond searches make the reported
 throughput infinite

---
 filtering/engine_generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index bd14e47..c321d3d 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -81,7 +81,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					log.Fatalf("throughput monitor in EngingGenerator[%s] died", eg.Name)
 				}
 				//log.Printf("[EngineGenerator] %s: %v us/event", eg.Name, r.elapsed.Nanoseconds())
-				eg.totalTime += r.elapsed.Nanoseconds() / 1000 // microseconds
+				eg.totalTime += r.elapsed.Nanoseconds()
 				eg.EventCount++
 				if r.matched {
 					eg.MatchedCount++
@@ -94,8 +94,8 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					EventCount:   eg.EventCount,
 					MatchedCount: eg.MatchedCount,
 				}
-				throughput := float64(eg.EventCount) / float64(eg.totalTime)
-				if throughput != 0 && !math.IsNaN(throughput) {
+				throughput := float64(eg.EventCount) / (float64(eg.totalTime) / 1000) // events per microsecond
+				if throughput != 0 && !math.IsNaN(throughput) && !math.IsInf(throughput, 0) {
 					eg.CurrentThroughput = throughput
 					eg.managementChannel <- ManagementMessage{
 						Type:              EngineStatus,
-- 
2.43.0


From b45d5d2b26ccca14a09e989e78433faf45eb63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 24/30] fix: EngineFactory reads and selects the current engine
 without synchronisation

---
 filtering/engine_factory.go | 56 ++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index eaba7e1..673c56a 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -7,6 +7,7 @@ package filtering
 
 import (
 	"context"
+	"errors"
 	"log"
 	"reflect"
 	"sync"
@@ -25,25 +26,41 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    string
+	currentEngineMutex   sync.RWMutex
 	statInterval         int
 }
 
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
-		return false
-	}
-	return true
+	return len(ef.getCurrentEngineName()) != 0
+}
+
+// getCurrentEngineName returns the name of the selected engine
+func (ef *EngineFactory) getCurrentEngineName() string {
+	ef.currentEngineMutex.RLock()
+	defer ef.currentEngineMutex.RUnlock()
+	return ef.currentEngineName
+}
+
+// setCurrentEngineName selects the engine
+func (ef *EngineFactory) setCurrentEngineName(name string) {
+	ef.currentEngineMutex.Lock()
+	defer ef.currentEngineMutex.Unlock()
+	ef.currentEngineName = name
 }
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
-	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+	current, ok := ef.productionSystem[ef.getCurrentEngineName()]
+	if !ok {
+		return "", []string{}, errors.New("no engine is available")
+	}
+	for _, eg := range ef.productionSystem {
+		if eg != current && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return current.Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -105,13 +122,13 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				if current := ef.getCurrentEngineName(); current != ename && len(ename) != 0 {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, current)
+					ef.setCurrentEngineName(ename)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: ef.getCurrentEngineName(),
 				}
 			}
 		}
@@ -166,25 +183,26 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
+				current := ef.getCurrentEngineName()
+				if len(current) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: msg.EngineGeneratorInstance.Name,
 					}
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+				if ef.deploymentPriority[current] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, current)
+					ef.setCurrentEngineName(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: msg.EngineGeneratorInstance.Name,
 					}
 					continue
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
+				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, current)
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From 5ad40aa7a488549627ace4042180eb40e99a5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 25/30] fix: gosstrak-fc ignores initialMessageID

---
 cmd/gosstrak-fc/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..c5631e7 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -102,8 +102,8 @@ var (
 	// start command
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
-	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	// Current messageID, starts from llrpInitialMessageID
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -254,6 +254,8 @@ func run() {
 	}
 	log.Printf("establised an LLRP connection to the interrogator %v", conn.RemoteAddr())
 
+	currentMessageID = uint32(*llrpInitialMessageID)
+
 	// prepare LLRP header storage
 	header := make([]byte, 2)
 	length := make([]byte, 4)
-- 
2.43.0


From eafc7289f66f476a6a19e9c9d252dc7462e07da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 26/30] fix: gosstrak-fc misreads an LLRP message shorter than
 its header

---
 cmd/gosstrak-fc/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index c5631e7..7782e9f 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -276,9 +276,12 @@ func run() {
 		// length containts the size of the entire message in octets
 		// starting from bit offset 0, hence, the message size is
 		// length - 10 bytes
+		if l := binary.BigEndian.Uint32(length); l < 10 {
+			log.Fatalf("Invalid LLRP Message Length: %v\n", l)
+		}
 		var messageValue []byte
 		if messageSize := binary.BigEndian.Uint32(length) - 10; messageSize != 0 {
-			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)
+			messageValue = make([]byte, messageSize)
 			_, err = io.ReadFull(conn, messageValue)
 			if err != nil {
 				log.Fatal(err)
-- 
2.43.0


From 6ea6b3c97155d6a973adebf80795cca8539f9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 27/30] fix: LegacyEngine matches patterns that are not
 urn:epc:pat

---
 filtering/legacy_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 7adeec3..fc32753 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -94,7 +94,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 	for reportURI, patterns := range le.filters {
 		for _, pattern := range patterns {
 			seq := strings.Split(pattern, ":")
-			if len(seq) != 5 {
+			if len(seq) != 5 || !strings.HasPrefix(pattern, "urn:epc:pat:") {
 				continue
 			}
 			patternType := seq[3]
-- 
2.43.0


From 68601bf13cc42d525b58baeffc63e85582c8d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 28/30] fix: LegacyEngine takes an empty company prefix for any

---
 filtering/legacy_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index fc32753..8f74a7e 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -125,7 +125,7 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 				// unknown patternType
 				continue
 			}
-			if !strings.HasPrefix(patternType, "iso") && !strings.HasSuffix(pattern, ":") {
+			if !strings.HasPrefix(patternType, "iso") && strings.Contains(seq[4], ".") {
 				// the fields of EPC must match as a whole
 				pattern += "."
 			}
-- 
2.43.0


From 432338f959471d423031c0b0b2d80f9e465d82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 29/30] fix: report selections in the order they are made

---
 filtering/engine_factory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 673c56a..2ee2302 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -27,6 +27,7 @@ type EngineFactory struct {
 	enginePerformance    sync.Map
 	currentEngineName    string
 	currentEngineMutex   sync.RWMutex
+	selectionMutex       sync.Mutex // held while a selection is made and reported
 	statInterval         int
 }
 
@@ -113,6 +114,7 @@ func (ef *EngineFactory) Run() {
 		for {
 			select {
 			case <-intervalTicker.C:
+				ef.selectionMutex.Lock()
 				var ename string
 				perf := float64(0)
 				ef.enginePerformance.Range(func(k, v interface{}) bool {
@@ -130,6 +132,7 @@ func (ef *EngineFactory) Run() {
 					Type:       SelectedEngine,
 					EngineName: ef.getCurrentEngineName(),
 				}
+				ef.selectionMutex.Unlock()
 			}
 		}
 	}()
@@ -183,6 +186,7 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
+				ef.selectionMutex.Lock()
 				current := ef.getCurrentEngineName()
 				if len(current) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
@@ -191,6 +195,7 @@ func (ef *EngineFactory) Run() {
 						Type:       SelectedEngine,
 						EngineName: msg.EngineGeneratorInstance.Name,
 					}
+					ef.selectionMutex.Unlock()
 					continue
 				}
 				if ef.deploymentPriority[current] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
@@ -200,8 +205,10 @@ func (ef *EngineFactory) Run() {
 						Type:       SelectedEngine,
 						EngineName: msg.EngineGeneratorInstance.Name,
 					}
+					ef.selectionMutex.Unlock()
 					continue
 				}
+				ef.selectionMutex.Unlock()
 				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, current)
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
-- 
2.43.0


From e3e4760b37388adf899f2b7e62f7cfab418de084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 30/30] fix: serialize the searches of a splay tree, which
 restructure it

---
 filtering/splay_tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index eae787c..898aa7b 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/iomz/go-llrp"
 	"github.com/iomz/gosstrak/tdt"
@@ -20,6 +21,7 @@ import (
 
 // SplayTree struct
 type SplayTree struct {
+	mu      sync.Mutex // a search also restructures the tree
 	root    *SplayTreeNode
 	tdtCore *tdt.Core
 }
@@ -34,6 +36,8 @@ type SplayTreeNode struct {
 
 // AddSubscription adds a set of subscriptions if not exists yet
 func (st *SplayTree) AddSubscription(sub Subscriptions) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	bsub := sub.ToByteSubscriptions()
 	for _, fs := range bsub.Keys() {
 		st.root.add(fs, bsub[fs].ReportURI)
@@ -42,6 +46,8 @@ func (st *SplayTree) AddSubscription(sub Subscriptions) {
 
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (st *SplayTree) DeleteSubscription(sub Subscriptions) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	bsub := sub.ToByteSubscriptions()
 	for _, fs := range bsub.Keys() {
 		st.root.delete(fs, bsub[fs].ReportURI)
@@ -50,6 +56,8 @@ func (st *SplayTree) DeleteSubscription(sub Subscriptions) {
 
 // Dump returs a string representation of the PatriciaTrie
 func (st *SplayTree) Dump() string {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	writer := &bytes.Buffer{}
 	st.root.print(writer, 0)
 	return writer.String()
@@ -57,6 +65,8 @@ func (st *SplayTree) Dump() string {
 
 // MarshalBinary overwrites the marshaller in gob encoding *SplayTree
 func (st *SplayTree) MarshalBinary() (_ []byte, err error) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	var buf bytes.Buffer
 	enc := gob.NewEncoder(&buf)
 
@@ -76,6 +86,8 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
@@ -86,6 +98,8 @@ func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs
 
 // UnmarshalBinary overwrites the unmarshaller in gob decoding *PatriciaTrie
 func (st *SplayTree) UnmarshalBinary(data []byte) (err error) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
 	dec := gob.NewDecoder(bytes.NewReader(data))
 
 	// Type of Engine
-- 
2.43.0

