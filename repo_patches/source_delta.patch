From 2035f134f7e9326cf24e69b105cb7449b9a875e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 01/60] fix: creating a missing level lump with a name shorter
 than 8 letters no longer panics

---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From d06718eac1f1f0e0b1e6282babb66fd1387e1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 02/60] fix: zero-filled reject size is looked up by schedule
 id, the directory index of a level shifts when lumps are created or ejected

---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..3b02408 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker schedule id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index f94d0d0..9d3cc06 100644
--- a/wad.go
+++ b/wad.go
@@ -442,7 +442,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From dbad99dcf2e14ec17bc8cbe19b2a0890b30495e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 03/60] fix: SCRIPTS lump of a rebuilt level is kept, it used
 to be lost and misalign the directory

---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 9d3cc06..c35b0dd 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
-- 
2.43.0


From ebfd2e186c31817c505a66ae52c166c1c3647905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 04/60] fix: duplicates of level lumps no longer misalign the
 output directory

---
 wad.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/wad.go b/wad.go
index c35b0dd..a261f8d 100644
--- a/wad.go
+++ b/wad.go
@@ -173,16 +173,14 @@ func CanRebuildThisLevel(levelName []byte) bool {
 func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 	validities []LevelValidity) []LumpEntry {
 	// Will be updated
-	nSize := len(le)
 	curOut := 0 // cursor
 	curLevel := 0
-	leOut := make([]LumpEntry, nSize)
+	leOut := make([]LumpEntry, len(le))
 	scheduleEntry := cloneSchedule(*scheduleRoot)
 	newScheduleRoot := scheduleEntry
 	deltaCur := 0 // so as to update schedule to lump entry referencies for lumps not inside a level
 	for scheduleEntry != nil {
 		if scheduleEntry.Drop {
-			nSize--
 			deltaCur--
 			scheduleEntry = scheduleEntry.Next
 			continue
@@ -201,7 +199,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -210,22 +207,16 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				} else if value > 1 {
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
-					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
 					if value == 0 {
 						// More space needed
 						leOut = append(leOut, LumpEntry{})
-						nSize++
-						deltaCur++
 						// For now, we insert lump at the end
 						SetValiditySocket(LUMP_CREATE[key], LUMP_SORT_ORDER,
 							&(validities[curLevel].currentOrder),
@@ -237,10 +228,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -248,6 +235,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				// order
 				oldIdxsToNew := make(map[int]int)
 				inss := 1
+				levelStart := curOut
 				for key, value := range validities[curLevel].currentOrder {
 					if value == -2 {
 						leOut[curOut] = LumpEntry{
@@ -264,9 +252,17 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				// Duplicates of any level lump (mandatory, creatable or optional)
+				// are not copied to the output
+				keptLevel := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					if newIdx, kept := oldIdxsToNew[subEntry.DirIndex]; kept {
+						subEntry.DirIndex = newIdx
+						keptLevel = append(keptLevel, subEntry)
+					}
 				}
+				scheduleEntry.Level = keptLevel
+				deltaCur += (curOut - levelStart) - oldLevelLen
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
@@ -293,7 +289,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 		}
 		scheduleEntry = nextScheduleEntry
 	}
-	leOut = leOut[:nSize]
+	leOut = leOut[:curOut]
 	*scheduleRoot = newScheduleRoot
 	return leOut
 }
-- 
2.43.0


From 647de2e690cca51d9ebd43dc943ae9d985088454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 05/60] fix: directory no longer moves back further than the
 zeroes it reuses when the first lump is empty

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 9bbc2127da079bfba84418bd73d2d3509196465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 06/60] fix: BSPNOSEG on the back side was looked up on the
 front side

---
 node_intro.go | 2 +-
 znodegen.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..2228021 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1487,7 +1487,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From a4e289c7c8481e1d337ec44f4a3f36b10b5ddc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 07/60] fix: scroller copies of several walls removed or added
 in one run mixed up lines

---
 level.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/level.go b/level.go
index 3b02408..0031fc1 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -856,6 +857,10 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	}
 	// now dryRun definitely false
 
+	// Groups are visited in order of their first producer, so that the indices
+	// of what to remove come unsorted when groups are interleaved
+	sort.Ints(linedefsToCull)
+
 	// Create new array of linedefs
 	ret := make([]Linedef, len(linedefs))
 
@@ -875,6 +880,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	}
 	ret = ret[:len(linedefs)-removed]
 
+	dummies = dummies[:len(ret)]
+
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
 	for _, scrollerGroup := range scrollerGroupList {
-- 
2.43.0


From dd14bd8691674ef6af229c6cf8a9e7bfd61ac89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 08/60] fix: wall scrolled by a remote scroll linedef could be
 taken for a scroller copy

---
 level.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/level.go b/level.go
index 0031fc1..a7dd134 100755
--- a/level.go
+++ b/level.go
@@ -720,6 +720,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	backSdefForGroup := make([]uint16, 0) // not part of identity, but needs to be copied
 	// map from ScrollerGroup to array of producers (linedef indices)
 	scrollerToProducerMap := make(map[ScrollerGroup][]int)
+	// walls picked by remote scroll linedefs: these are never dummies
+	remoteWalls := make(map[ScrollerGroup]int)
 	for i, linedef := range linedefs {
 		if linedef.Action == 48 {
 			// Normal scroll action
@@ -764,6 +766,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 						FrontSdef:   linedef2.FrontSdef,
 					},
 					i, linedef2.BackSdef)
+				remoteWalls[ScrollerGroup{
+					StartVertex: linedef2.StartVertex,
+					EndVertex:   linedef2.EndVertex,
+					FrontSdef:   linedef2.FrontSdef,
+				}] = nearest
 			} else {
 				Log.Verbose(1, "Linedef %d has action 1048 (remote scroll) and non-zero tag value of %d, but another linedef with same tag value doesn't exist.\n",
 					i, linedef.Tag)
@@ -803,11 +810,12 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			scrollPower = 1
 		}
 		currPower := uint16(0)
-		for idx, j := range producers {
+		wall := scrollerWall(remoteWalls, scrollerGroup, producers)
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
 				currPower++
-				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
+				// Also let's reset tag value (except for the wall, of course)
+				if j != wall {
 					linedefs[j].Tag = 0
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
@@ -831,11 +839,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			addLineCount[i] = 0
 			remove := currPower - scrollPower
 			removed := uint16(0)
-			for idx, j := range producers {
+			for _, j := range producers {
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if j != wall && linedefs[j].Action == 48 {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -886,10 +894,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	// some may have changed index, so compute new index
 	for _, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
-		for idx, j := range producers {
+		wall := scrollerWall(remoteWalls, scrollerGroup, producers)
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
-				// If it's the first line, is not dummy
-				if idx != 0 {
+				// If it's the wall itself, is not dummy
+				if j != wall {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
@@ -935,6 +944,16 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	return ret, dummies
 }
 
+// scrollerWall returns index of the linedef that is the actual wall among those
+// of the group. The rest of linedefs in the group with action 48 are dummies
+func scrollerWall(remoteWalls map[ScrollerGroup]int, group ScrollerGroup,
+	producers []int) int {
+	if wall, ok := remoteWalls[group]; ok {
+		return wall
+	}
+	return producers[0]
+}
+
 func addProducer(scrollerGroupList *[]ScrollerGroup, backSdefForGroup *[]uint16,
 	stpMap *map[ScrollerGroup][]int, scrollerGroup ScrollerGroup,
 	linedefIdx int, backsdef uint16) {
-- 
2.43.0


From eb71f95993a1a50bee146ac91eb754a541516a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 09/60] fix: node builder crashed on lines lying outside of the
 rendered part of the map

---
 nodegen.go  | 5 +++--
 znodegen.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..72ace83 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -486,7 +486,8 @@ func NodesGenerator(input *NodesInput) {
 		if heur {
 			// use heuristic to see if level is detailed, if yes, use
 			// detail-friendly version (but that generates more segs and nodes)
-			detail := IsTooDetailed(input.lines, input.linesToIgnore, rootBox)
+			detail := IsTooDetailed(input.lines, input.linesToIgnore,
+				GetLineBounds(input.lines))
 			if detail {
 				doLinesIntersect = doLinesIntersectDetail
 			}
@@ -1042,7 +1043,7 @@ func GetLineBounds(lines AbstractLines) *NodeBounds {
 	r.Ymin = 2147483647
 	l := lines.Len()
 	for i := uint16(0); i < l; i++ {
-		x1, x2, y1, y2 := lines.GetAllXY(i)
+		x1, y1, x2, y2 := lines.GetAllXY(i)
 
 		if x1 < r.Xmin {
 			r.Xmin = x1
diff --git a/znodegen.go b/znodegen.go
index 2228021..8acc06b 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -262,7 +262,8 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		}
 		if heur {
 
-			detail := IsTooDetailed(input.lines, input.linesToIgnore, rootBox)
+			detail := IsTooDetailed(input.lines, input.linesToIgnore,
+				GetLineBounds(input.lines))
 			if detail {
 				doLinesIntersect = ZExt_doLinesIntersectDetail
 			}
-- 
2.43.0


From bd0243000245de6ddd6a74b138091d5c5047ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 10/60] fix: node builder crashed on a map with a single seg

---
 nodegen.go  | 5 +++--
 znodegen.go | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 72ace83..d07651a 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -415,8 +415,9 @@ func NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		// a single seg is not enough either: each node has two children
+		Log.Error("Failed to create enough SEGs (BAD). Quitting (%s)\n.", time.Since(start))
 		// First respond to solid blocks control goroutine that we won't serve
 		// any requests to them
 		if !alreadyCloned {
diff --git a/znodegen.go b/znodegen.go
index 8acc06b..606c4f2 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -196,8 +196,8 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := ZExt_createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		Log.Error("Failed to create enough SEGs (BAD). Quitting (%s)\n.", time.Since(start))
 
 		if !alreadyCloned {
 			input.bcontrol <- BconRequest{
-- 
2.43.0


From 06dfad8e7da50cda4ab449efb140f4d485fcfbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 11/60] fix: 65536 subsectors and more went undetected as too
 many for vanilla nodes

---
 multiformat_tree.go | 4 ++--
 nodegen.go          | 2 +-
 znodegen.go         | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/multiformat_tree.go b/multiformat_tree.go
index 56dd339..218c997 100644
--- a/multiformat_tree.go
+++ b/multiformat_tree.go
@@ -102,7 +102,7 @@ func nilAndPrintTimer(start time.Time, oldNodeType int) *NodeInProcess {
 // whether nodes data overflows limits for vanilla unsigned (limit-removing) format
 func (w *NodesWork) isUnsignedOverflow() bool {
 	return w.nodeType != NODETYPE_VANILLA ||
-		uint32(w.totals.numSSectors)&w.SsectorMask == w.SsectorMask ||
+		uint32(w.totals.numSSectors) >= w.SsectorMask ||
 		len(w.vertices) > 65536 ||
 		w.tooManySegsCantFix(true)
 }
@@ -110,7 +110,7 @@ func (w *NodesWork) isUnsignedOverflow() bool {
 // whether nodes data overflows limits for strict (signed) vanilla format
 func (w *NodesWork) isVanillaSignedOverflow() bool {
 	b := w.nodeType != NODETYPE_VANILLA ||
-		uint32(w.totals.numSSectors)&w.SsectorMask == w.SsectorMask ||
+		uint32(w.totals.numSSectors) >= w.SsectorMask ||
 		len(w.vertices) > 32768
 	if b {
 		return true
diff --git a/nodegen.go b/nodegen.go
index d07651a..157be94 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -850,7 +850,7 @@ func NodesGenerator(input *NodesInput) {
 	}
 
 	// Now we can actually UNDO all our hard work if limits were exceeded
-	if uint32(workData.totals.numSSectors)&workData.SsectorMask == workData.SsectorMask {
+	if uint32(workData.totals.numSSectors) >= workData.SsectorMask {
 		if !cloneEarly {
 			Log.Error("Number of subsectors is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
 				workData.totals.numSSectors)
diff --git a/znodegen.go b/znodegen.go
index 606c4f2..ae43750 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -540,7 +540,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		}
 	}
 
-	if uint32(workData.totals.numSSectors)&workData.SsectorMask == workData.SsectorMask {
+	if uint32(workData.totals.numSSectors) >= workData.SsectorMask {
 		if !cloneEarly {
 			Log.Error("Number of subsectors is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
 				workData.totals.numSSectors)
@@ -4802,14 +4802,14 @@ type ZExt_MultiformatPassthrough struct {
 
 func (w *ZExt_NodesWork) isUnsignedOverflow() bool {
 	return w.nodeType != NODETYPE_VANILLA ||
-		uint32(w.totals.numSSectors)&w.SsectorMask == w.SsectorMask ||
+		uint32(w.totals.numSSectors) >= w.SsectorMask ||
 		len(w.vertices) > 65536 ||
 		w.tooManySegsCantFix(true)
 }
 
 func (w *ZExt_NodesWork) isVanillaSignedOverflow() bool {
 	b := w.nodeType != NODETYPE_VANILLA ||
-		uint32(w.totals.numSSectors)&w.SsectorMask == w.SsectorMask ||
+		uint32(w.totals.numSSectors) >= w.SsectorMask ||
 		len(w.vertices) > 32768
 	if b {
 		return true
-- 
2.43.0


From c91814b0c3b28480b3227cf0e22db454467cbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 12/60] fix: vertices beyond the reach of vanilla segs made
 broken nodes instead of empty ones

---
 nodegen.go  | 7 +++++++
 znodegen.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 157be94..6099784 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -856,6 +856,13 @@ func NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
diff --git a/znodegen.go b/znodegen.go
index ae43750..c746397 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -546,6 +546,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
-- 
2.43.0


From 2995b3498ae3aaacd5843eeea7bff7896a0ba7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 13/60] fix: reject table of a map without two-sided lines
 between sectors hid sectors from themselves

---
 reject.go     | 8 ++++++++
 rejectFAST.go | 5 +++++
 rejectSYMM.go | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..a3f4810 100755
--- a/reject.go
+++ b/reject.go
@@ -840,6 +840,14 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+		// the sight computations are going to be skipped, nothing else would ever
+		// mark the sectors (not even the one sector of a map that has just that)
+		// as visible to themselves
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	// the second return value (message) will be displayed if numTransLines == 0
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..e0f3a3b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -483,6 +483,11 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..b9c3274 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -431,6 +431,11 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
-- 
2.43.0


From ec872253e2cf08bc926be01c98c755b6adae61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:26 +0000
Subject: [PATCH 14/60] fix: self-referencing sector was hidden from the sector
 around it when that one had a lower number

---
 reject.go     | 6 +++++-
 rejectFAST.go | 4 +++-
 rejectSYMM.go | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index a3f4810..fc49c99 100755
--- a/reject.go
+++ b/reject.go
@@ -1448,7 +1448,11 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					// the sector it surrounds may be self-referencing, and such
+					// a sector is to be kept visible whatever its number is
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 				// If any non-solid lines with both references set to same
diff --git a/rejectFAST.go b/rejectFAST.go
index e0f3a3b..f4be61a 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -866,7 +866,9 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b9c3274..a1d7967 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -798,7 +798,9 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 
-- 
2.43.0


From 5fd5740e8736cf9b1421ba74fd4809c3eb73956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 15/60] fix: sectors were hidden from each other when a line of
 sight region was divided right next to its corner

---
 reject.go     | 8 ++++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/reject.go b/reject.go
index fc49c99..e0c11ee 100755
--- a/reject.go
+++ b/reject.go
@@ -1742,6 +1742,14 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		// the line of tgt passes right by an end of src, but it can't be told by
+		// which of them it really is, so both orientations of tgt are to be tried
+		if r.checkLOS(src, tgt) {
+			return true
+		}
+		tgt.start, tgt.end = tgt.end, tgt.start
+		tgt.DX = -tgt.DX
+		tgt.DY = -tgt.DY
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index f4be61a..969f632 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1036,6 +1036,12 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if r.checkLOS(src, tgt) {
+			return true
+		}
+		tgt.start, tgt.end = tgt.end, tgt.start
+		tgt.DX = -tgt.DX
+		tgt.DY = -tgt.DY
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index a1d7967..b1a9a56 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -968,6 +968,12 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if r.checkLOS(src, tgt) {
+			return true
+		}
+		tgt.start, tgt.end = tgt.end, tgt.start
+		tgt.DX = -tgt.DX
+		tgt.DY = -tgt.DY
 		return r.checkLOS(src, tgt)
 	}
 
-- 
2.43.0


From 6b31783b6b29cd1d70ac9ff58c19b85018be4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 16/60] fix: wrong end of a solid line was taken as an obstacle
 to sight, and sectors were hidden from each other

---
 rejectLOS.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rejectLOS.go b/rejectLOS.go
index 1a027cf..38f2b82 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -839,6 +839,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 		}
 	}
 	i += 1
+	startAbove := y1 > 0
 
 	// Find new index start from the 'right'
 	var j int
@@ -851,6 +852,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 		y1 = DX*(line.start.Y-p1.Y) - DY*(line.start.X-p1.X)
 		y2 = DX*(line.end.Y-p1.Y) - DY*(line.end.X-p1.X)
 		if (y1 > 0) != (y2 > 0) {
+			startAbove = y1 > 0
 			break
 		}
 	}
@@ -862,7 +864,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 	}
 	poly.numPoints += 1 - ptsRemoved
 
-	if y1 > 0 {
+	if startAbove {
 		poly.points[i] = &line.start
 	} else {
 		poly.points[i] = &line.end
-- 
2.43.0


From 82c939de956fbe61a35b3bd937118afaf284f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 17/60] fix: region between two lines was divided by the line
 that had to be divided, and sectors with sight of each other were hidden

---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index e0c11ee..32e3a29 100755
--- a/reject.go
+++ b/reject.go
@@ -1607,7 +1607,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From 7a25d671c189aa3470490e5ab0902f82345b5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 18/60] fix: rounding of the point where a line of sight region
 is divided could put it behind a wall

---
 reject.go     |  1 +
 rejectFAST.go |  1 +
 rejectLOS.go  | 18 ++++++++++++++++++
 rejectSYMM.go |  1 +
 4 files changed, 21 insertions(+)

diff --git a/reject.go b/reject.go
index 32e3a29..5eb3553 100755
--- a/reject.go
+++ b/reject.go
@@ -1739,6 +1739,7 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
 	}
 
+	crossPoint.keepLeftOf(src)
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
diff --git a/rejectFAST.go b/rejectFAST.go
index 969f632..4ddf812 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1034,6 +1034,7 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
 	}
 
+	crossPoint.keepLeftOf(src)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
 		if r.checkLOS(src, tgt) {
diff --git a/rejectLOS.go b/rejectLOS.go
index 38f2b82..5359ccc 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -1095,3 +1095,21 @@ func FindPolyLines(world *WorldInfo) bool {
 
 	return true
 }
+
+// keepLeftOf moves a point, which was supposed to lie on the line but got
+// truncated to integer coordinates, to the nearest position that is not on the
+// right side of that line. Sight regions are always on the left side of src
+func (p *IntVertex) keepLeftOf(line *TransLine) {
+	q := *p
+	best := -1
+	for dy := -1; dy <= 1; dy++ {
+		for dx := -1; dx <= 1; dx++ {
+			side := line.DX*(q.Y+dy-line.start.Y) - line.DY*(q.X+dx-line.start.X)
+			if side >= 0 && (best < 0 || side < best) {
+				best = side
+				p.X = q.X + dx
+				p.Y = q.Y + dy
+			}
+		}
+	}
+}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b1a9a56..a6bd83d 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -966,6 +966,7 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
 	}
 
+	crossPoint.keepLeftOf(src)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
 		if r.checkLOS(src, tgt) {
-- 
2.43.0


From efd623bc7a6053931072d9eda69ce14931206ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 19/60] fix: combined BLIND and INVERT BLIND hid the wrong
 sectors, and INVERT BAND hid everything

The band meant by the manual arises when the INVERT distance is the greater
one; the test was the wrong way round. INVERT BAND hid every sector instead
of those outside of the band. The same for SAFE.
---
 rejectFAST.go | 26 ++++++++++++++++----------
 rejectRMB.go  | 32 ++++++++++++++++++++++----------
 rejectSYMM.go | 26 ++++++++++++++++----------
 3 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 4ddf812..66a022a 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1231,11 +1231,11 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 }
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		sector.Blind = 4
+	}
+	if sector.Blind == 7 {
+		sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1264,11 +1264,11 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		sector.Safe = 4
+	}
+	if sector.Safe == 7 {
+		sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1612,6 +1612,9 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 
 func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1637,6 +1640,9 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..a4722f7 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -426,11 +426,13 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 }
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// the two overlap: only where they do is affected
+		sector.Blind = 4
+	}
+	if sector.Blind == 7 {
+		// everything outside of the band is affected
+		sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -466,11 +468,13 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// the two overlap: only where they do is affected
+		sector.Safe = 4
+	}
+	if sector.Safe == 7 {
+		// everything outside of the band is affected
+		sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1178,6 +1182,10 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 
 func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 	// Not relying on distanceTable means having to account for groups here
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// BLIND 0 and inverse BLIND 1 overlap in the group itself only
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1204,6 +1212,10 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
 	// Not relying on distanceTable means having to account for groups here
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// SAFE 0 and inverse SAFE 1 overlap in the group itself only
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index a6bd83d..4319bad 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1163,11 +1163,11 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 }
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		sector.Blind = 4
+	}
+	if sector.Blind == 7 {
+		sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1196,11 +1196,11 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		sector.Safe = 4
+	}
+	if sector.Safe == 7 {
+		sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1529,6 +1529,9 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 
 func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1554,6 +1557,9 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
-- 
2.43.0


From 71f98898c6f8449466a66b20660e75e5264ff9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 20/60] fix: INVERT without an option crashed or inverted the
 command before it

---
 rmbparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..eb62717 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,7 +442,13 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
+	before := len(context.activeFrame.Commands)
 	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
+		if len(context.activeFrame.Commands) == before {
+			// nothing or only a comment follows
+			context.LogError(NOT_INVERTIBLE)
+			return false
+		}
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
-- 
2.43.0


From 62234210af5abae9cdc5789622bc5097a6c22994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 21/60] fix: unsupported map marker in RMB file was reported as
 an error but taken

---
 rmbparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmbparse.go b/rmbparse.go
index eb62717..f7edad1 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -751,6 +751,7 @@ func (c *ParseContext) parseRMBLine(line []byte, fromInvert bool) bool {
 				}
 				if len(command) != 3 && !MAP_SEQUEL.Match(command) {
 					c.LogError("unsupported map marker, expected MAP followed by 2 digits immediately, or followed by a space and a lump marker\n")
+					return false
 				}
 				fnd = true
 			}
-- 
2.43.0


From 3a7a530b4e5098533a7ce488af54a03ee91e68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 22/60] fix: negative sector number in GROUP crashed

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index a4722f7..8f171f8 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI < 0 || grI >= len(groups) {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v < 0 || v >= len(groups) {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From 2cd40446a46f3a8b4822c272c45adae337eb6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 23/60] fix: line number over 65535 in LINE affected another
 line

---
 rejectRMB.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index 8f171f8..88d56cc 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -939,6 +939,13 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		switch cmd.Type {
+		case RMB_LEFT, RMB_RIGHT, RMB_LINE:
+			if int(uint16(cmd.Data[0])) != cmd.Data[0] {
+				cmd.Error("specified line number out of range: %d\n", cmd.Data[0])
+				continue
+			}
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From 00a7e3648879989b6412168945ee29000b40d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 24/60] fix: DISTANCE compared a distance with a squared one
 where lines face each other

and took points behind a line to be near it.
---
 rejectFAST.go | 7 ++-----
 rejectRMB.go  | 9 ++++-----
 rejectSYMM.go | 7 ++-----
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 66a022a..d4be450 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1491,11 +1491,8 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index 88d56cc..80be025 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -812,11 +812,10 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
-	}
-	return !(uint64(d) < r.maxDistance)
+	// the distance is squared like maxDistance, and must not depend on the side of
+	// the line the point is at
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 4319bad..c3c6ce9 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1423,11 +1423,8 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From 65a2d8a534fb53e8359bcc31a5ae0aa50a82fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 25/60] fix: DISTANCE hid sectors that only one sector lies
 between

The manual: no setting prevents sector 1 from seeing sectors 2 and 3.
---
 rejectFAST.go | 1 +
 rejectRMB.go  | 8 ++++++++
 rejectSYMM.go | 1 +
 3 files changed, 10 insertions(+)

diff --git a/rejectFAST.go b/rejectFAST.go
index d4be450..2316d77 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1466,6 +1466,7 @@ func (r *FastRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *FastRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!shareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
diff --git a/rejectRMB.go b/rejectRMB.go
index 80be025..0e9f42d 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -787,6 +787,7 @@ func (r *RejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!shareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -798,6 +799,13 @@ func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	return false
 }
 
+// Whether lines border the same sector. According to the RMB manual, no DISTANCE
+// setting prevents seeing through a sector into the next one
+func shareSector(a, b *TransLine) bool {
+	return a.frontSector == b.frontSector || a.frontSector == b.backSector ||
+		a.backSector == b.frontSector || a.backSector == b.backSector
+}
+
 func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 	p1 := line.start
 	p2 := line.end
diff --git a/rejectSYMM.go b/rejectSYMM.go
index c3c6ce9..29a7028 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1398,6 +1398,7 @@ func (r *SymmetricRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *SymmetricRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!shareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
-- 
2.43.0


From c580aa34fc71dbb1a9b8ef000d0d4b6aa6a15de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 26/60] fix: sectors next to a member of a GROUP stayed hidden
 from the rest of it

---
 reject.go     | 6 ++++--
 rejectFAST.go | 5 +++--
 rejectSYMM.go | 5 +++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/reject.go b/reject.go
index 5eb3553..b72fbc7 100755
--- a/reject.go
+++ b/reject.go
@@ -1446,8 +1446,10 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		// a fallback in pedantic mode
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
+			groupMember := r.groupShareVis && !r.sectorIsNotGroup(i)
 			if !sly {
-				for j := 0; j < r.numSectors; j++ {
+				// what the other sectors of its group see, it will see as well
+				for j := 0; j < r.numSectors && !groupMember; j++ {
 					// the sector it surrounds may be self-referencing, and such
 					// a sector is to be kept visible whatever its number is
 					if !rsetup.slyLinesInSector[uint16(j)] {
@@ -1485,7 +1487,7 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectFAST.go b/rejectFAST.go
index 2316d77..522e813 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -864,8 +864,9 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
+			groupMember := r.groupShareVis && !r.sectorIsNotGroup(i)
 			if !sly {
-				for j := 0; j < r.numSectors; j++ {
+				for j := 0; j < r.numSectors && !groupMember; j++ {
 					if !rsetup.slyLinesInSector[uint16(j)] {
 						r.markVisibilitySector(i, j, VIS_HIDDEN)
 					}
@@ -892,7 +893,7 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 29a7028..d5e3170 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -796,8 +796,9 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
+			groupMember := r.groupShareVis && !r.sectorIsNotGroup(i)
 			if !sly {
-				for j := 0; j < r.numSectors; j++ {
+				for j := 0; j < r.numSectors && !groupMember; j++ {
 					if !rsetup.slyLinesInSector[uint16(j)] {
 						r.markVisibilitySector(i, j, VIS_HIDDEN)
 					}
@@ -824,7 +825,7 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
-- 
2.43.0


From fe7e9cd5ad50ad3b0c1fb496fd373bd6b58117d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 27/60] fix: NOPROCESS that names the input wad crashed or
 copied another lump

---
 wad.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wad.go b/wad.go
index a261f8d..5675793 100644
--- a/wad.go
+++ b/wad.go
@@ -509,6 +509,13 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			newSch.Level = make([]*ScheduledLump, len(sch.Level))
+			for i, sub := range sch.Level {
+				newSub := *sub
+				newSch.Level[i] = &newSub
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From 3ad1b3a36764cb61fec5f22f599b05d60ef79c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 28/60] fix: NOPROCESS with a file that is no wad crashed, with
 one that can't be opened ended the program

---
 filecontrol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..163f4e0 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -375,6 +375,7 @@ func (fc *FileControl) OpenExternalFile(externalFileName string) (*os.File, erro
 		fc.fpin.Close()
 		fc.fpin = nil
 		fc.pinnedFileName = ""
+		fc.pinnedExternalWad = nil
 	}
 
 	fin, err := os.Open(externalFileName)
@@ -435,7 +436,7 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err != nil {
 		Log.Error("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
-		os.Exit(1)
+		return nil
 	}
 
 	wh := new(WadHeader)
@@ -443,6 +444,7 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err5 != nil {
 		Log.Error("Couldn't read wad directory from %s: %s\n",
 			wadFileName, err5.Error())
+		return nil
 	}
 	wadDir := LoadWadDirectory(false, le, nil, nil, false, nil)
 	if wadDir == nil {
-- 
2.43.0


From afd8cf07f7bdaf6912f7bb6cb812735c2baf33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 29/60] fix: BLIND 0/1 and SAFE 0/1 had no effect under
 NOPROCESS when a BLIND or SAFE that needs distances was present

---
 reject.go     |  2 ++
 rejectFAST.go |  1 +
 rejectRMB.go  | 19 +++++++++++++++++++
 rejectSYMM.go |  1 +
 4 files changed, 23 insertions(+)

diff --git a/reject.go b/reject.go
index b72fbc7..3bd4342 100755
--- a/reject.go
+++ b/reject.go
@@ -636,6 +636,8 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	// first let's identify if we skip this setup
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+		// no table of distances will be there for other BLIND and SAFE
+		r.rmbFrame = rmbFrame.KeepSimpleBlindSafe()
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 522e813..885d17c 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -305,6 +305,7 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+		r.rmbFrame = rmbFrame.KeepSimpleBlindSafe()
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
diff --git a/rejectRMB.go b/rejectRMB.go
index 0e9f42d..2b16dfc 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -1029,6 +1029,25 @@ func (fr *RMBFrame) convertBlindSafe() {
 	fr.Parent.convertBlindSafe()
 }
 
+// KeepSimpleBlindSafe returns a copy of frame where BLIND/SAFE is only left where
+// it can take effect under NOPROCESS, that is with 0/1 and no BAND prefix
+func (fr *RMBFrame) KeepSimpleBlindSafe() *RMBFrame {
+	frNew := fr.Clone()
+	for it := frNew; it != nil; it = it.Parent {
+		kept := make([]RMBCommand, 0, len(it.Commands))
+		for _, cmd := range it.Commands {
+			if (cmd.Type == RMB_BLIND || cmd.Type == RMB_SAFE) &&
+				(cmd.Band || cmd.Data[0] > 1) {
+				continue
+			}
+			kept = append(kept, cmd)
+		}
+		it.Commands = kept
+	}
+	frNew.convertBlindSafe()
+	return frNew
+}
+
 func (fr *RMBFrame) checkTrivialBlindSafe() int {
 	if fr == nil {
 		return BLINDSAFE_NONE
diff --git a/rejectSYMM.go b/rejectSYMM.go
index d5e3170..dbf8a36 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -253,6 +253,7 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 
 	rmbFrame := r.rmbFrame
 	if NoProcess_TryLoad(r.numSectors, rsetup, r.rejectTable) {
+		r.rmbFrame = rmbFrame.KeepSimpleBlindSafe()
 		return false, "NOPROCESS is in effect. Physical LOS computations, and neighborship identification are skipped.\n"
 	}
 
-- 
2.43.0


From 18d5c761be7eff641a83f7b30ba41195eb2c5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 30/60] fix: square of huge DISTANCE overflowed

---
 rejectRMB.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 2b16dfc..e4d6f0c 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -225,7 +225,12 @@ func (fr *RMBFrame) GetDISTANCEValue() (bool, uint64) {
 	}
 	for i := len(fr.Commands) - 1; i >= 0; i-- {
 		if fr.Commands[i].Type == RMB_DISTANCE {
-			v := uint64(fr.Commands[i].Data[0])
+			d := fr.Commands[i].Data[0]
+			if d > 1<<20 {
+				// nothing on a map is that far away, and the square has to fit
+				d = 1 << 20
+			}
+			v := uint64(d)
 			// From Zennode: store the square of the distance (avoid floating
 			// point later on)
 			return true, v * v
-- 
2.43.0


From b70c39d05669ff65f3daea8d88fc29f4c92b73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 31/60] fix: lump count that doesn't fit the file made the
 program allocate up to 64 GB

---
 wad.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wad.go b/wad.go
index 5675793..d663402 100644
--- a/wad.go
+++ b/wad.go
@@ -552,6 +552,14 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 		return nil, errors.New("Unable to find any valid levels")
 	}
 
+	fi, err := f.Stat()
+	if err != nil {
+		return nil, errors.New(fmt.Sprintf("Couldn't find out the size of file: %s", err.Error()))
+	}
+	if int64(wh.DirectoryStart)+int64(wh.LumpCount)*int64(binary.Size(LumpEntry{})) > fi.Size() {
+		return nil, errors.New(fmt.Sprintf("Directory of %d lumps at %d offset doesn't fit into the file", wh.LumpCount, wh.DirectoryStart))
+	}
+
 	_, err = f.Seek(int64(wh.DirectoryStart), 0)
 	if err != nil {
 		return nil, errors.New(fmt.Sprintf("Couldn't move to wad's directory structure (%d offset): %s", wh.DirectoryStart, err.Error()))
-- 
2.43.0


From 5351756afeeba679fe0211444b6010d2db16e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 32/60] fix: errors writing lumps and the directory were
 ignored, and an incomplete archive replaced the input

---
 lumpwrite.go   |  8 ++++----
 vigilantbsp.go | 15 ++++++++++++---
 writebus.go    | 25 ++++++++++++++++++++++---
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..0256abb 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -23,13 +23,13 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
-	"os"
+	"io"
 )
 
 // Write byte array without conversion. It is assumed that lump was received
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
-func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
+func WriteSliceLump(data []byte, curPos *uint32, fout io.Writer, le []LumpEntry,
 	lumpIdx int, s string, postfix string) {
 	if data != nil {
 		fout.Write(data)
@@ -49,7 +49,7 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
-func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
+func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout io.Writer,
 	le []LumpEntry, lumpIdx int, s string, postfix string) {
 	hashSuffix := ""
 	binary.Write(fout, binary.LittleEndian, data)
@@ -64,7 +64,7 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	*curPos = *curPos + uint32(dataLen)
 }
 
-func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
+func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout io.Writer,
 	le []LumpEntry, lumpIdx int, s string, postfix string) {
 	hashSuffix := ""
 	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..cb7264c 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -288,9 +288,18 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		Log.Error("An error has occured while trying to write %s: %s\n", outFileName, err)
+		mainFileControl.Shutdown()
+		os.Exit(1)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
diff --git a/writebus.go b/writebus.go
index d9c5317..0940be8 100755
--- a/writebus.go
+++ b/writebus.go
@@ -19,6 +19,7 @@
 package main
 
 import (
+	"io"
 	"os"
 )
 
@@ -40,11 +41,27 @@ type WriteBusRequest struct {
 }
 
 type WriteBus struct {
-	fout   *os.File
+	fout   *StickyWriter
 	le     []LumpEntry
 	curPos uint32
 }
 
+// StickyWriter remembers the first error that occured when writing, and writes
+// nothing after it
+type StickyWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (s *StickyWriter) Write(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.w.Write(p)
+	s.err = err
+	return n, err
+}
+
 type WriteBusControl struct {
 	bus      *WriteBus
 	ch       chan<- WriteBusRequest
@@ -54,7 +71,7 @@ type WriteBusControl struct {
 
 func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusControl {
 	bus := &WriteBus{
-		fout:   fout,
+		fout:   &StickyWriter{w: fout},
 		le:     le,
 		curPos: curPos,
 	}
@@ -150,9 +167,11 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Returns the first error that occured when writing lumps, if there was any
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.fout.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From 84827bf0528f6e58dbcefc06908082bb9462637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 33/60] fix: temporary file was deleted even though copying it
 over the input had failed

---
 filecontrol.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index 163f4e0..289ad70 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -183,7 +183,19 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			Log.Error("Error when overwriting the original file: %s.\n",
 				err.Error())
 		}
-		fout.Close()
+		err = fout.Close()
+		if err != nil && success {
+			success = false
+			Log.Error("Error when overwriting the original file: %s.\n",
+				err.Error())
+		}
+		if !success {
+			// The temporary file is the only complete copy now
+			fin.Close()
+			Log.Error("The original file is damaged, the result was kept in '%s'.\n",
+				fc.outputFileName)
+			return false
+		}
 	}
 	fin.Close()
 	// Now delete the temporary file
-- 
2.43.0


From f31fd7901c2adaabcab2f06727584dda698c247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 34/60] fix: exit status was that of success, and temporary
 file was left, when closing files or replacing the input had failed

---
 filecontrol.go | 4 ++++
 vigilantbsp.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/filecontrol.go b/filecontrol.go
index 289ad70..5f3ef64 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -137,6 +137,9 @@ func (fc *FileControl) Success() bool {
 	}
 	errFin := fc.fin.Close()
 	errFout := fc.fout.Close()
+	// Shutdown must not close them again
+	fc.fin = nil
+	fc.fout = nil
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -166,6 +169,7 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 	if errFin != nil {
 		Log.Error("Couldn't reopen the temporarily file to read from it: %s.\n",
 			errFin.Error())
+		os.Remove(fc.outputFileName)
 		return false
 	}
 	fout, errFout := os.OpenFile(fc.inputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
diff --git a/vigilantbsp.go b/vigilantbsp.go
index cb7264c..93acb8d 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -312,6 +312,8 @@ func main() {
 		Log.Printf("%s successfully written \n ", trFileName)
 	} else {
 		Log.Printf("I/O error on flushing data / closing files. The data might not have been saved!\n")
+		mainFileControl.Shutdown()
+		os.Exit(1)
 	}
 	if config.DumpSegsFlag {
 		DebugSaveDumpedSegs(config.SegDumpFile)
-- 
2.43.0


From 2ae4521f60a7223055775358bc16d054696ca17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 35/60] fix: temporary file was left behind when its header
 could not be written

---
 vigilantbsp.go | 14 ++++++++------
 wad.go         | 12 +++---------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 93acb8d..c562ce7 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -239,16 +239,18 @@ func main() {
 
 	// in the future, will probably store new wad's header separately
 	err = binary.Write(fout, binary.LittleEndian, wh)
+	if err == nil && zerosToInsert > 0 {
+		err = WriteNZeros(fout, zerosToInsert)
+	}
+	if err == nil {
+		// skip directory also
+		err = WriteNZeros(fout, uint32(binary.Size(le)))
+	}
 	if err != nil {
 		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
+		mainFileControl.Shutdown() // removes the temporary file
 		os.Exit(1)
 	}
-
-	if zerosToInsert > 0 {
-		WriteNZerosOrFail(fout, zerosToInsert, outFileName)
-	}
-	// skip directory also
-	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName)
 	action := ScheduleRoot
 	curPos := uint32(binary.Size(wh)) + zerosToInsert + uint32(binary.Size(le))
 	wriBus := StartWriteBus(fout, le, curPos)
diff --git a/wad.go b/wad.go
index d663402..a77695e 100644
--- a/wad.go
+++ b/wad.go
@@ -102,16 +102,10 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
-func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
+func WriteNZeros(a io.Writer, n uint32) error {
 	zb := make([]byte, n, n)
-	written, err := a.Write(zb)
-	if err != nil {
-		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
-		os.Exit(1)
-	} else if uint32(written) != n {
-		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
-		os.Exit(1)
-	}
+	_, err := a.Write(zb)
+	return err
 }
 
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
-- 
2.43.0


From 3d6177a5fac19fcf985749eace798830751373ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 36/60] fix: errors reading lumps were ignored, and zeroes
 written in place of their data

---
 filecontrol.go | 17 +++++++++++++++++
 level.go       | 20 +++++++-------------
 udmf_level.go  |  2 +-
 vigilantbsp.go |  2 +-
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 5f3ef64..689c707 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
@@ -60,6 +61,22 @@ func (fc *FileControl) OpenInputFile(inputFileName string) (*os.File, error) {
 	return fc.fin, err
 }
 
+// ReadInput fills data with what is at the given position in the input file.
+// If that can't be read, the program can't go on - its output would have
+// zeroes in place of data
+func (fc *FileControl) ReadInput(pos uint32, data interface{}) {
+	_, err := fc.fin.Seek(int64(pos), 0)
+	if err == nil {
+		err = binary.Read(fc.fin, binary.LittleEndian, data)
+	}
+	if err != nil {
+		Log.Error("An error has occured while trying to read %s: %s\n",
+			fc.inputFileName, err)
+		fc.Shutdown()
+		os.Exit(1)
+	}
+}
+
 func (fc *FileControl) OpenOutputFile(outputFileName string) (*os.File, string, error) {
 	fc.tmp = outputFileName == ""
 	var err error
diff --git a/level.go b/level.go
index a7dd134..c5c80fe 100755
--- a/level.go
+++ b/level.go
@@ -148,47 +148,41 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					fileControl.ReadInput(le[idx].FilePos, linedefs)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					fileControl.ReadInput(le[idx].FilePos, hexenLinedefs)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				fileControl.ReadInput(le[idx].FilePos, vertices)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				fileControl.ReadInput(le[idx].FilePos, sidedefs)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				fileControl.ReadInput(le[idx].FilePos, sectors)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				fileControl.ReadInput(le[idx].FilePos, hexenThings)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				fileControl.ReadInput(le[idx].FilePos, tmpBuf)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..ac0e36b 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -78,7 +78,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 			}
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				fileControl.ReadInput(le[idx].FilePos, tmpBuf)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index c562ce7..3d9a66e 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -268,7 +268,7 @@ func main() {
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
 			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			mainFileControl.ReadInput(le[idx].FilePos, tmpBuf)
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
-- 
2.43.0


From 286b1a598087208bc70e1f76c6f55c2a27888111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 37/60] fix: empty argument made the program ignore all
 arguments after it, such as -o, and lone hyphen was ignored

---
 cmdparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..3788117 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -44,7 +44,8 @@ func (c *ProgramConfig) FromCommandLine() bool {
 	skip := false
 	for argIdx, arg := range args {
 		if len(arg) < 1 {
-			break
+			Log.Error("Empty argument - aborting.\n")
+			return false
 		}
 		if skip {
 			skip = false
@@ -70,7 +71,8 @@ func (c *ProgramConfig) FromCommandLine() bool {
 		}
 
 		if len(arg) < 2 {
-			continue
+			Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+			return false
 		}
 		switch arg[1] {
 		case 'b':
-- 
2.43.0


From f3af0fca30784c3901d72a66a0780e7f03b43ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 38/60] fix: --cpuprofile and --memprofile without a file name
 crashed

---
 cmdparser.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 3788117..1c17672 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -158,18 +158,22 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+					}
 					skip = true
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+					}
 					skip = true
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
-- 
2.43.0


From 2c6ca17386d896f45a1c3a2a0d3a4affdc846acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 39/60] fix: -nc without a value crashed

---
 cmdparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index 1c17672..3c99262 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -799,6 +799,11 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'c':
 			{
 				displace := 0
+				if len(p) < 3 {
+					Log.Error("Unknown value for NODES format.\n")
+					p = p[:0]
+					break
+				}
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
 				} else if bytes.Equal(p[1:3], []byte("=d")) {
-- 
2.43.0


From bca424880b16f42ad588a88d55aa4a123cf09f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 40/60] fix: unknown argument that starts with -! was ignored

---
 cmdparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index 3c99262..556b3ea 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -370,6 +370,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 					c.FilterProhibitsLevels = true
 				}
+			default:
+				{
+					Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+					return false
+				}
 			}
 		default:
 			{
-- 
2.43.0


From c2e05f97fca5a0e0145363e281e61156c32811a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 41/60] fix: unknown argument that starts with -! was ignored,
 ones that only begin with the name of a known one, or have garbage after the
 value, were taken for it

---
 cmdparser.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 556b3ea..4963e29 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -201,7 +201,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					// Parameter to control whether use more accurate
 					// doLinesIntersect check. Does not affect extended nodes
 					// (they use far more accurate variant always anyway).
-					ns, _ := readNumeric("--detailnodes=", []byte(arg)[len("--detailnodes=")-1:])
+					ns, rest := readNumeric("--detailnodes=", []byte(arg)[len("--detailnodes=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.NodeDetailFriendliness = NODE_DETAIL_ALWAYS
 					} else if ns.whichType == ARG_DISABLED {
@@ -223,7 +227,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--sidecache")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--sidecache=", []byte(arg)[len("--sidecache=")-1:])
+					ns, rest := readNumeric("--sidecache=", []byte(arg)[len("--sidecache=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.CacheSideness = CACHE_SIDENESS_ALWAYS
 					} else if ns.whichType == ARG_DISABLED {
@@ -257,7 +265,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 						c.DepthArtifacts = false
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--stknode")) {
-					ns, _ := readNumeric("--stknode=", []byte(arg)[len("--stknode=")-1:])
+					ns, rest := readNumeric("--stknode=", []byte(arg)[len("--stknode=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					if ns.whichType == ARG_ENABLED {
 						c.StkNode = true
 					} else if ns.whichType == ARG_DISABLED {
@@ -291,7 +303,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					c.NoSymm = true
 				} else if bytes.HasPrefix([]byte(arg), []byte("--speedtree")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--speedtree=", []byte(arg)[len("--speedtree=")-1:])
+					ns, rest := readNumeric("--speedtree=", []byte(arg)[len("--speedtree=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					c.SpeedTreeExplicit = true
 					if ns.whichType == ARG_ENABLED {
 						c.SpeedTree = true
@@ -310,7 +326,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				} else if bytes.HasPrefix([]byte(arg), []byte("--roots")) {
 					// Parameter to control whether use
-					ns, _ := readNumeric("--roots=", []byte(arg)[len("--roots=")-1:])
+					ns, rest := readNumeric("--roots=", []byte(arg)[len("--roots=")-1:])
+					if len(rest) > 0 {
+						Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+						return false
+					}
 					switch ns.whichType {
 					case ARG_IS_NUMBER:
 						if c.Roots < 0 {
-- 
2.43.0


From 105f17b6cd98551b5d865ba9e183cbe1974d3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 42/60] fix: garbage after -v was ignored without a message

---
 cmdparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index 4963e29..6a88fb2 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -128,6 +128,9 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 				}
 				c.VerbosityLevel += vs
+				if vs < len(barg) {
+					Log.Error("Syntax error: -v parameter is followed by garbage; expected -v, -vv, -vvv and so on.\n")
+				}
 			}
 		case 'o':
 			{
-- 
2.43.0


From 6de562f089559a9d8dbd3e1277e300e72181158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 43/60] fix: -bo with x offset only was taken for the offset
 mode of that number, and offsets over 65535 were wrapped around

---
 cmdparser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 6a88fb2..334ca96 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -663,8 +663,11 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 					if len(rest) > 0 && rest[0] == ',' {
 						t, v, rest2 := readNumericOnly(rest[1:])
 						rest = rest2
-						if t {
-							if int16(nos.value) >= 0 && int16(v) >= 0 {
+						if !t {
+							Log.Error("Invalid blockmap offsets were specified, they will be ignored.\n")
+							handled = true
+						} else {
+							if nos.value <= 32767 && v <= 32767 {
 								c.BlockmapOffsetMode = BM_OFFSET_FIXED
 								c.BlockmapXOffset = int16(nos.value)
 								c.BlockmapYOffset = int16(v)
-- 
2.43.0


From ca9decbe91df87d5ad81f8e66edbb5408d86df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 44/60] fix: builder crashed when the grid of a large map had
 more than 65535 cells counted with those the offsets may add

---
 blockmapgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..dbd9550 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -589,7 +589,7 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	return (int(xblocks) + 1) * (int(yblocks) + 1)
 }
 
 func StatBlockmap(bm *Blockmap) {
-- 
2.43.0


From 16121ab28a6a81fbd1abd30d3c7ab139e5f6914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 45/60] fix: hash printed for nodes in DeeP format was not that
 of the lump, for signature was left out

---
 lumpwrite.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumpwrite.go b/lumpwrite.go
index 0256abb..3a1540a 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -70,7 +70,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout io.Writer,
 	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
 	binary.Write(fout, binary.LittleEndian, data)
 	if config.HashLumps {
-		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
+		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(DEEPNODES_SIG, data))
 	}
 	dataLen := binary.Size(data)
 	le[lumpIdx].FilePos = *curPos
@@ -88,10 +88,13 @@ func Hash(data []byte) string {
 	return base64.StdEncoding.EncodeToString(su)
 }
 
-// same as Hash, but for arbitrary data instead of slice of bytes
-func HashIntf(data interface{}) string {
+// same as Hash, but for arbitrary data (possibly of several parts that follow
+// one another in the lump) instead of slice of bytes
+func HashIntf(parts ...interface{}) string {
 	hsh := sha256.New()
-	binary.Write(hsh, binary.LittleEndian, data)
+	for _, data := range parts {
+		binary.Write(hsh, binary.LittleEndian, data)
+	}
 	su := hsh.Sum(nil)
 	return base64.StdEncoding.EncodeToString(su)
 }
-- 
2.43.0


From 784fcd35c3e57e38d300df27cd6f63866dc77f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 46/60] fix: reject builder crashed when a line flagged as
 two-sided that lacks a sidedef was near a self-referencing sector

---
 reject.go     | 2 +-
 rejectFAST.go | 2 +-
 rejectSYMM.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index 3bd4342..f745d5b 100755
--- a/reject.go
+++ b/reject.go
@@ -1037,7 +1037,7 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
diff --git a/rejectFAST.go b/rejectFAST.go
index 885d17c..2200c52 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -644,7 +644,7 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index dbf8a36..260c519 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -592,7 +592,7 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
-- 
2.43.0


From f3d9ff84a829e08c9aa7898c849825eca111a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 47/60] fix: blockmap compression -bs crashed when blocklists
 of a large map were all empty

---
 bblocks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..9000bd2 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1075,6 +1075,10 @@ func (bm *Blockmap) IdentifyOrderAndSize(chunks []*BlocklistChunk, blocks []Bloc
 		// as no subsets remain - they were merged into full lists
 		return identityToWriteLast, totalIdentityWords
 	}
+	if identityToWriteLast == nil {
+		// All blocklists are empty, thus none is subset of another
+		return nil, totalIdentityWords
+	}
 	// For accurate analysis, remember about byte stealing
 	bmSize := binary.Size(bm.header) + len(blocks)*2 + totalIdentityWords*2
 	if bm.stealOneWord {
-- 
2.43.0


From ac7dee2803ca83d08f28ccc143e446f43bf36deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 48/60] fix: builder crashed on levels whose table of blocks
 alone is larger than any addressable blockmap

---
 bblocks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bblocks.go b/bblocks.go
index 9000bd2..f890841 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1376,6 +1376,10 @@ func (gcs *BlockmapGCShield) GetLumpFromPool(expectedSize, expectedCapacity int)
 	if gcs == nil {
 		return make([]byte, expectedSize, expectedCapacity)
 	}
+	if expectedSize > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
+		// Not even the part that is always written would fit
+		return make([]byte, expectedSize, expectedCapacity)
+	}
 	if expectedCapacity > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
 		// Such blockmap is too large for any port anyway
 		expectedCapacity = MAX_ADDRESSABLE_BLOCKMAP_SIZE
-- 
2.43.0


From 0c18fde2359e20fd2eb769e68050dcf76006fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 49/60] fix: multi-tree mode crashed when the level had no
 linedefs of the kind requested for root

---
 multitree_plain.go | 5 +++++
 znodegen.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..62b496a 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -525,6 +525,11 @@ func MTPSentinel_GetRootSegCandidates(allSegs []*NodeSeg, rootChoiceMethod int)
 		}
 		res = append(res, i)
 	}
+	if len(res) == 0 && rootChoiceMethod != MROOT_EVERY {
+		// No linedef is of the requested kind, but some must be root anyway
+		Log.Printf("Multi-tree: no linedefs of the requested kind, all linedefs will be tried for root.\n")
+		return MTPSentinel_GetRootSegCandidates(allSegs, MROOT_EVERY)
+	}
 
 	// Segs that would produce same partition line as other segs need to
 	// be eliminated so that only one of such seg group (alias) is retained
diff --git a/znodegen.go b/znodegen.go
index c746397..9cbc392 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4590,6 +4590,11 @@ func ZExt_MTPSentinel_GetRootSegCandidates(allSegs []*ZExt_NodeSeg, rootChoiceMe
 		}
 		res = append(res, i)
 	}
+	if len(res) == 0 && rootChoiceMethod != MROOT_EVERY {
+		// No linedef is of the requested kind, but some must be root anyway
+		Log.Printf("Multi-tree: no linedefs of the requested kind, all linedefs will be tried for root.\n")
+		return ZExt_MTPSentinel_GetRootSegCandidates(allSegs, MROOT_EVERY)
+	}
 
 	alias := make([]bool, len(res))
 	for i := 0; i < len(res); i++ {
-- 
2.43.0


From ff55673db6d51213153cdcd0dec56f64acd1f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 50/60] fix: builder crashed, leaving temporary file behind, on
 levels whose linedefs reference vertices, sidedefs or sectors that do not
 exist

---
 level.go | 74 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/level.go b/level.go
index c5c80fe..617a15a 100755
--- a/level.go
+++ b/level.go
@@ -107,6 +107,10 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	if action.LevelFormat == FORMAT_HEXEN {
 		Log.Printf("Level is in Hexen format.\n")
 	}
+	if config.RebuildNodes || config.RebuildBlockmap || !rejectSkip {
+		l.verifyReferences(le, action, fileControl, config.RebuildNodes ||
+			!rejectSkip || blockmapNeedsSectors)
+	}
 	for _, subaction := range action.Level {
 		idx = subaction.DirIndex
 		bname := ByteSliceBeforeTerm(le[idx].Name[:])
@@ -418,6 +422,76 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	l.WaitForAndWriteData()
 }
 
+// verifyReferences makes sure that linedefs reference existing vertices, and also
+// (if needSidedefs is true) existing sidedefs that belong to existing sectors.
+// Nothing can be built for a level where it is not so, and the program is
+// terminated then
+func (l *Level) verifyReferences(le []LumpEntry, action *ScheduledLump,
+	fileControl *FileControl, needSidedefs bool) {
+	var linedefs []Linedef
+	var hexenLinedefs []HexenLinedef
+	var sidedefs []Sidedef
+	cntVertices := 0
+	cntSectors := 0
+	for _, subaction := range action.Level {
+		entry := le[subaction.DirIndex]
+		bname := ByteSliceBeforeTerm(entry.Name[:])
+		if bytes.Equal(bname, []byte("LINEDEFS")) {
+			if action.LevelFormat == FORMAT_DOOM {
+				linedefs = make([]Linedef, entry.Size/DOOM_LINEDEF_SIZE)
+				fileControl.ReadInput(entry.FilePos, linedefs)
+			} else { // FORMAT_HEXEN
+				hexenLinedefs = make([]HexenLinedef, entry.Size/HEXEN_LINEDEF_SIZE)
+				fileControl.ReadInput(entry.FilePos, hexenLinedefs)
+			}
+		} else if bytes.Equal(bname, []byte("VERTEXES")) {
+			cntVertices = int(entry.Size >> 2)
+		} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
+			sidedefs = make([]Sidedef, entry.Size/DOOM_SIDEDEF_SIZE)
+			fileControl.ReadInput(entry.FilePos, sidedefs)
+		} else if bytes.Equal(bname, []byte("SECTORS")) {
+			cntSectors = int(entry.Size / DOOM_SECTOR_SIZE)
+		}
+	}
+	verifyLinedef := func(i int, startVertex, endVertex, frontSdef, backSdef uint16) {
+		for _, v := range [...]uint16{startVertex, endVertex} {
+			if int(v) >= cntVertices {
+				l.giveUp(fileControl, "linedef %d references vertex %d, but there are %d vertices",
+					i, v, cntVertices)
+			}
+		}
+		if !needSidedefs {
+			return
+		}
+		for _, s := range [...]uint16{frontSdef, backSdef} {
+			if s == SIDEDEF_NONE {
+				continue
+			}
+			if int(s) >= len(sidedefs) {
+				l.giveUp(fileControl, "linedef %d references sidedef %d, but there are %d sidedefs",
+					i, s, len(sidedefs))
+			}
+			if int(sidedefs[s].Sector) >= cntSectors {
+				l.giveUp(fileControl, "sidedef %d references sector %d, but there are %d sectors",
+					s, sidedefs[s].Sector, cntSectors)
+			}
+		}
+	}
+	for i, line := range linedefs {
+		verifyLinedef(i, line.StartVertex, line.EndVertex, line.FrontSdef, line.BackSdef)
+	}
+	for i, line := range hexenLinedefs {
+		verifyLinedef(i, line.StartVertex, line.EndVertex, line.FrontSdef, line.BackSdef)
+	}
+}
+
+// giveUp terminates the program because level data is damaged
+func (l *Level) giveUp(fileControl *FileControl, s string, a ...interface{}) {
+	Log.Error("Level %s can't be processed: %s.\n", l.mapName, fmt.Sprintf(s, a...))
+	fileControl.Shutdown()
+	os.Exit(1)
+}
+
 // This will receive results of work from other threads via channels, then write
 // them. If deterministic, lump data is written in strict order. Otherwise it is
 // written in the order it was received
-- 
2.43.0


From 90109251519732d14ed7327add100e14134c063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 51/60] fix: linedefs and vertices were lost from a level
 without sidedefs or sectors, its directory entries pointed to unrelated data

---
 level.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/level.go b/level.go
index 617a15a..cb5fd70 100755
--- a/level.go
+++ b/level.go
@@ -417,6 +417,18 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		}
 	}
 
+	// If nodes should have been built, but there was nothing to build them from,
+	// then lumps that nodes builder would have written are kept as they were
+	if config.RebuildNodes && l.NodesChan == nil {
+		for _, idx := range [...]int{l.LinedefsLumpIdx, l.VerticesLumpIdx} {
+			if idx != 0 {
+				tmpBuf := make([]byte, le[idx].Size)
+				fileControl.ReadInput(le[idx].FilePos, tmpBuf)
+				wriBus.SendRawLump(tmpBuf, idx, "", "")
+			}
+		}
+	}
+
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
 	l.WaitForAndWriteData()
-- 
2.43.0


From 498e39007b6ae84e7ae63a36637624b3bbd8ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 52/60] fix: linedefs over the limit of 65535, in the level or
 added for its scrolling walls, were numbered from zero again and crashed the
 builder

---
 level.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/level.go b/level.go
index cb5fd70..ba8f38f 100755
--- a/level.go
+++ b/level.go
@@ -42,6 +42,10 @@ type ScrollerGroup struct {
 	FrontSdef   uint16
 }
 
+// Linedefs are referenced by 16-bit numbers, of which the last one terminates the
+// lists of linedefs in blockmap
+const MAX_LINEDEFS = 65535
+
 type Level struct {
 	BlockmapLumpIdx     int
 	RejectLumpIdx       int
@@ -489,6 +493,10 @@ func (l *Level) verifyReferences(le []LumpEntry, action *ScheduledLump,
 			}
 		}
 	}
+	if cnt := len(linedefs) + len(hexenLinedefs); cnt > MAX_LINEDEFS {
+		l.giveUp(fileControl, "it has %d linedefs, but there can be %d at most",
+			cnt, MAX_LINEDEFS)
+	}
 	for i, line := range linedefs {
 		verifyLinedef(i, line.StartVertex, line.EndVertex, line.FrontSdef, line.BackSdef)
 	}
@@ -1006,6 +1014,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	for i := 0; i < len(addLineCount); i++ {
 		cnt := addLineCount[i]
 		group := scrollerGroupList[i]
+		if len(ret)+int(cnt) > MAX_LINEDEFS {
+			Log.Error("Scroll speed of linedef %d is too great, it will not be applied because the level would have had more than %d linedefs.\n",
+				scrollerToProducerMap[group][0], MAX_LINEDEFS)
+			continue
+		}
 		for j := uint16(0); j < cnt; j++ {
 			ret = append(ret, Linedef{
 				StartVertex: group.StartVertex,
-- 
2.43.0


From 0df16cc6c565053ba6ee49b4a8a295374c82866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 53/60] fix: multi-tree mode with --roots crashed when no line
 was found good enough to be root

---
 multitree_plain.go | 4 ++++
 znodegen.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index 62b496a..df46137 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -134,6 +134,10 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 && config.Roots != 0 { // none was good enough
+		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+			rootChoiceMethod)
+	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
diff --git a/znodegen.go b/znodegen.go
index 9cbc392..8102948 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4290,6 +4290,10 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 && config.Roots != 0 { // none was good enough
+		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+			rootChoiceMethod)
+	}
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
-- 
2.43.0


From be26d98d8eaa8a1d739acddc775e31b1500f622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 54/60] fix: reject builder crashed on levels with zero-length
 one-sided linedefs only, as those are not among solid lines

---
 rejectFAST.go | 20 +++++++++++---------
 rejectLOS.go  | 20 +++++++++++---------
 rejectSYMM.go | 20 +++++++++++---------
 3 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 2200c52..9d79d51 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -2257,18 +2257,20 @@ func (r *FastRejectWork) prepareBlockmapForLOS() {
 
 	r.solidList = make([]SolidmapSlice, len(r.blockmap.blocklist))
 	totalEntries := 0
-	for i, list := range r.blockmap.blocklist {
-		r.solidList[i].offset = totalEntries
-		r.solidList[i].length = len(list)
-		totalEntries += r.solidList[i].length
-	}
-	r.solidMap = make([]uint16, totalEntries)
-	i := 0
 	for _, list := range r.blockmap.blocklist {
+		totalEntries += len(list)
+	}
+	r.solidMap = make([]uint16, 0, totalEntries)
+	for i, list := range r.blockmap.blocklist {
+		r.solidList[i].offset = len(r.solidMap)
 		for _, v := range list {
-			r.solidMap[i] = r.indexToSolid[v]
-			i++
+			// zero-length linedefs have no counterpart in solidLines
+			idx := r.indexToSolid[v]
+			if int(idx) < len(r.solidLines) && r.solidLines[idx].index == v {
+				r.solidMap = append(r.solidMap, idx)
+			}
 		}
+		r.solidList[i].length = len(r.solidMap) - r.solidList[i].offset
 	}
 }
 
diff --git a/rejectLOS.go b/rejectLOS.go
index 5359ccc..cdc9d37 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -129,18 +129,20 @@ func (r *RejectWork) prepareBlockmapForLOS() {
 	// friendlier to cache (less trips to RAM)
 	r.solidList = make([]SolidmapSlice, len(r.blockmap.blocklist))
 	totalEntries := 0
-	for i, list := range r.blockmap.blocklist {
-		r.solidList[i].offset = totalEntries
-		r.solidList[i].length = len(list)
-		totalEntries += r.solidList[i].length
-	}
-	r.solidMap = make([]uint16, totalEntries)
-	i := 0
 	for _, list := range r.blockmap.blocklist {
+		totalEntries += len(list)
+	}
+	r.solidMap = make([]uint16, 0, totalEntries)
+	for i, list := range r.blockmap.blocklist {
+		r.solidList[i].offset = len(r.solidMap)
 		for _, v := range list {
-			r.solidMap[i] = r.indexToSolid[v]
-			i++
+			// zero-length linedefs have no counterpart in solidLines
+			idx := r.indexToSolid[v]
+			if int(idx) < len(r.solidLines) && r.solidLines[idx].index == v {
+				r.solidMap = append(r.solidMap, idx)
+			}
 		}
+		r.solidList[i].length = len(r.solidMap) - r.solidList[i].offset
 	}
 }
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 260c519..dd7e430 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -2174,18 +2174,20 @@ func (r *SymmetricRejectWork) prepareBlockmapForLOS() {
 
 	r.solidList = make([]SolidmapSlice, len(r.blockmap.blocklist))
 	totalEntries := 0
-	for i, list := range r.blockmap.blocklist {
-		r.solidList[i].offset = totalEntries
-		r.solidList[i].length = len(list)
-		totalEntries += r.solidList[i].length
-	}
-	r.solidMap = make([]uint16, totalEntries)
-	i := 0
 	for _, list := range r.blockmap.blocklist {
+		totalEntries += len(list)
+	}
+	r.solidMap = make([]uint16, 0, totalEntries)
+	for i, list := range r.blockmap.blocklist {
+		r.solidList[i].offset = len(r.solidMap)
 		for _, v := range list {
-			r.solidMap[i] = r.indexToSolid[v]
-			i++
+			// zero-length linedefs have no counterpart in solidLines
+			idx := r.indexToSolid[v]
+			if int(idx) < len(r.solidLines) && r.solidLines[idx].index == v {
+				r.solidMap = append(r.solidMap, idx)
+			}
 		}
+		r.solidList[i].length = len(r.solidMap) - r.solidList[i].offset
 	}
 }
 
-- 
2.43.0


From e1aa9e815e648fcaa1b226c01ee9088ac1c4b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 55/60] fix: multi-tree mode with --roots crashed when no line
 could be scored

---
 picknode.go | 8 +++-----
 znodegen.go | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/picknode.go b/picknode.go
index 60b6fcf..a0ca3d7 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1988,11 +1988,9 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		// different partitioner
 		if len(w.zenScores) == 0 { // hopefully never happens
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
-			w.parts = make([]*NodeSeg, 1)
-			w.parts[1] = best
-			if best == nil {
-				Log.Merge(w.mlog, "") // ensure user sees the above error before panic
-				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
+			w.parts = nil
+			if best != nil {
+				w.parts = []*NodeSeg{best}
 			}
 			return nil
 		}
diff --git a/znodegen.go b/znodegen.go
index 8102948..e49a688 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3480,11 +3480,9 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 
 		if len(w.zenScores) == 0 {
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
-			w.parts = make([]*ZExt_NodeSeg, 1)
-			w.parts[1] = best
-			if best == nil {
-				Log.Merge(w.mlog, "")
-				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
+			w.parts = nil
+			if best != nil {
+				w.parts = []*ZExt_NodeSeg{best}
 			}
 			return nil
 		}
-- 
2.43.0


From e1b055fdb7c1d189db19608fa6e213f31eb58841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 56/60] fix: directory entries of nodes and reject lumps kept
 values of the input, which lead to unrelated data, when a level had nothing
 to build them from

---
 level.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/level.go b/level.go
index ba8f38f..2b518a9 100755
--- a/level.go
+++ b/level.go
@@ -431,6 +431,16 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
+		for _, idx := range [...]int{l.SegsLumpIdx, l.SSectorsLumpIdx, l.NodesLumpIdx} {
+			if idx != 0 {
+				wriBus.SendRawLump(nil, idx, "", "")
+			}
+		}
+	}
+	// Likewise for reject, which is then zero-filled
+	if !rejectSkip && l.RejectChan == nil && l.RejectLumpIdx != 0 {
+		wriBus.SendRawLump(make([]byte, rejectLumpSize_nonUDMF(len(sectors))),
+			l.RejectLumpIdx, "", "")
 	}
 
 	// Wait for channels to deliver results of node/reject/blockmap building,
-- 
2.43.0


From e8bc88ec87cd69ab9b943664676f44ce5ada2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 57/60] verif: trace points and choice of root candidates,
 built with tag verif only

---
 blockmapgen.go     |  1 +
 level.go           |  9 +++++++
 multitree_plain.go |  2 ++
 solidblocks.go     |  5 ++++
 verif_off.go       | 14 ++++++++++
 verif_on.go        | 65 ++++++++++++++++++++++++++++++++++++++++++++++
 writebus.go        |  2 ++
 znodegen.go        |  2 ++
 8 files changed, 100 insertions(+)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/blockmapgen.go b/blockmapgen.go
index dbd9550..c76d830 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -304,6 +304,7 @@ func BlockmapHive(ctx context.Context, cancel context.CancelFunc,
 		}
 		if !cancelled || chase {
 			work := (recv.Interface()).(BlockmapBeeOutput) // got best effort of bee #chi
+			verifEvent("bee", int(work.XOffset), int(work.YOffset), len(work.data))
 			if cancelled && chase {
 				Log.Verbose(1, "Blockmap generator: cancelled because reached endgoal but still getting (%d,%d) to ensure determinism\n", work.XOffset, work.YOffset)
 			}
diff --git a/level.go b/level.go
index 2b518a9..1a7b7d1 100755
--- a/level.go
+++ b/level.go
@@ -108,6 +108,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	rejectDone := rejectSkip
 	blockmapDone := !config.RebuildBlockmap
 	Log.Printf("Processing level %s:\n", l.mapName)
+	verifEvent("level", action.DirIndex)
 	if action.LevelFormat == FORMAT_HEXEN {
 		Log.Printf("Level is in Hexen format.\n")
 	}
@@ -260,6 +261,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			// to lump
 			bcontrol = make(chan BconRequest, 4)
 			bgenerator = make(chan BgenRequest, 4)
+			verifEvent("gocontrol")
 			go SolidBlocks_Control(SolidBlocks_Input{
 				lines:         solidLines,
 				bounds:        bounds,
@@ -275,6 +277,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			// And this actually generates BLOCKMAP lump
 			Log.Printf("Generating BLOCKMAP...\n")
 			l.BlockmapLumpChannel = make(chan []byte)
+			verifEvent("goblockmap")
 			go BlockmapGenerator(BlockmapInput{
 				lines:           blockmapLines,
 				bounds:          bounds,
@@ -303,6 +306,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if !rejectDone && loadedLinedefsAndVertices && len(sidedefs) > 0 && len(sectors) > 0 {
 			rejectDone = true // don't trigger twice
 			l.RejectChan = make(chan RejectResponse)
+			verifEvent("goreject")
 			go RejectGenerator(RejectInput{
 				lines:         absLines,
 				bounds:        bounds,
@@ -327,6 +331,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			// buffered channel -- allow the sender to move on, because we may be
 			// delayed by reject business
 			l.NodesChan = make(chan NodesResult, 1)
+			verifEvent("gonodes")
 			// diagonality - global config
 			diagonalPenalty := config.DiagonalPenalty
 			applyDiagonalPenalty := config.PenalizeDiagonality == PENALIZE_DIAGONALITY_ALWAYS
@@ -445,7 +450,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
+	verifEvent("wait")
 	l.WaitForAndWriteData()
+	verifEvent("leveldone")
 }
 
 // verifyReferences makes sure that linedefs reference existing vertices, and also
@@ -570,6 +577,7 @@ func (l *Level) WaitForAndWriteData() {
 		canDelete := true
 		if recvOk {
 			cur := meaning[chi]
+			verifEvent("collect", cur)
 			switch cur {
 			case BRANCH_NODES:
 				{
@@ -585,6 +593,7 @@ func (l *Level) WaitForAndWriteData() {
 						// damn, it brought not results but a request for a lump
 						// because NOPROCESS
 						canDelete = false // keep, will have to wait for completion
+						verifEvent("nag")
 						data := l.handleRejectNagging(tmpResp.nagger)
 						if data != nil {
 							rejectResp = &RejectResponse{
diff --git a/multitree_plain.go b/multitree_plain.go
index df46137..74ca219 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -138,6 +138,7 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
 	}
+	rootSegCandidates = verifRoots(rootSegCandidates)
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
@@ -267,6 +268,7 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		res := (recv.Interface()).(MTPWorker_Result)
 		resp := new(MTPWorker_Result)
 		*resp = res
+		verifEvent("tree", res.id)
 		// Reseed worker with next seg to try as root
 		if lastFedIdx < len(rootSegCandidates)-1 {
 			lastFedIdx++
diff --git a/solidblocks.go b/solidblocks.go
index 9dd199b..38099ce 100755
--- a/solidblocks.go
+++ b/solidblocks.go
@@ -81,6 +81,7 @@ func SolidBlocks_Control(input SolidBlocks_Input) {
 	blockmapScheduled := false
 	go bmi.SolidBlocks_Generator(input.genworker)
 	for msg := range input.control {
+		verifEvent("control", msg.Sender, msg.Message)
 		switch msg.Message {
 		// No, BCON_WAIT_FOR_REQUEST is not allowed here
 		case BCON_NEED_SOLID_BLOCKMAP:
@@ -112,6 +113,7 @@ func SolidBlocks_Control(input SolidBlocks_Input) {
 			break
 		}
 	}
+	verifEvent("controldone")
 	// Generator must die (quit)
 	input.genworker <- BgenRequest{
 		Action:  BGEN_DIE,
@@ -162,6 +164,7 @@ func (input *BlockmapInput) SolidBlocks_Generator(recv <-chan BgenRequest) {
 	var bm *Blockmap
 	generated := false
 	for msg := range recv {
+		verifEvent("generator", msg.Action)
 		if msg.Action == BGEN_DIE {
 			// Hopefully sent by control and not by impostor
 			break
@@ -169,6 +172,7 @@ func (input *BlockmapInput) SolidBlocks_Generator(recv <-chan BgenRequest) {
 		if msg.Action == BGEN_GENERATE_BLOCKMAP {
 			if !generated {
 				generated = true
+				verifEvent("solidmap")
 				bm = CreateBlockmap(input)
 			}
 		}
@@ -179,6 +183,7 @@ func (input *BlockmapInput) SolidBlocks_Generator(recv <-chan BgenRequest) {
 				//notified by the same thread we got request now from. Wow, race conditions are tough
 				//Log.Printf("Solid blockmap requested but was not ever generated\n")
 				generated = true
+				verifEvent("solidmap")
 				bm = CreateBlockmap(input)
 			}
 			msg.ReplyTo <- bm
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..680f5b4
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,14 @@
+//go:build !verif
+// +build !verif
+
+package main
+
+// Trace points for verification, which do nothing in normal builds (see
+// verif_on.go)
+
+func verifEvent(what string, args ...int) {
+}
+
+func verifRoots(candidates []int) []int {
+	return candidates
+}
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..6bab477
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,65 @@
+//go:build verif
+// +build verif
+
+package main
+
+import (
+	"fmt"
+	"os"
+	"runtime"
+	"strconv"
+	"sync"
+	"time"
+)
+
+// Trace points for verification. They are active only when the program is built
+// with tag verif, and controlled by environment variables:
+// VV_TRACE - name of file to which events are written in the order they happened
+// VV_JITTER - seed for delays introduced at trace points, to vary the schedule
+// VV_ROOT - the only candidate for root that multi-tree modes should try
+
+var verifMutex sync.Mutex
+var verifFile *os.File
+var verifSeed uint64
+
+func init() {
+	if name := os.Getenv("VV_TRACE"); name != "" {
+		var err error
+		verifFile, err = os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
+		if err != nil {
+			panic(err)
+		}
+	}
+	verifSeed, _ = strconv.ParseUint(os.Getenv("VV_JITTER"), 10, 64)
+}
+
+func verifEvent(what string, args ...int) {
+	var delay uint64
+	verifMutex.Lock()
+	if verifFile != nil {
+		s := what
+		for _, a := range args {
+			s += fmt.Sprintf(" %d", a)
+		}
+		verifFile.WriteString(s + "\n")
+	}
+	if verifSeed != 0 {
+		verifSeed = verifSeed*6364136223846793005 + 1442695040888963407
+		delay = verifSeed >> 33
+	}
+	verifMutex.Unlock()
+	if delay%4 == 1 {
+		runtime.Gosched()
+	} else if delay%4 > 1 {
+		time.Sleep(time.Duration(delay/4%2000) * time.Microsecond)
+	}
+}
+
+func verifRoots(candidates []int) []int {
+	verifEvent("roots", candidates...)
+	i, err := strconv.Atoi(os.Getenv("VV_ROOT"))
+	if err != nil || i >= len(candidates) {
+		return candidates
+	}
+	return candidates[i : i+1]
+}
diff --git a/writebus.go b/writebus.go
index 0940be8..baaf285 100755
--- a/writebus.go
+++ b/writebus.go
@@ -90,6 +90,7 @@ func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusContro
 func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chSync chan<- bool) {
 	for req := range ch {
+		verifEvent("bus", req.tpeIndex, req.lumpIdx)
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
@@ -117,6 +118,7 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 			}
 		}
 	}
+	verifEvent("busdone")
 	chFinish <- true
 }
 
diff --git a/znodegen.go b/znodegen.go
index e49a688..af113ee 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4292,6 +4292,7 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
 	}
+	rootSegCandidates = verifRoots(rootSegCandidates)
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
@@ -4396,6 +4397,7 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 		res := (recv.Interface()).(ZExt_MTPWorker_Result)
 		resp := new(ZExt_MTPWorker_Result)
 		*resp = res
+		verifEvent("tree", res.id)
 
 		if lastFedIdx < len(rootSegCandidates)-1 {
 			lastFedIdx++
-- 
2.43.0


From 9a3b49952c5c68d96429f793089515615deb229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 58/60] fix: blockmap generator carried on, and blocked
 forever, after it had already delivered a blockmap found early

---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index c76d830..123b824 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0


From 6bcc988044036db5424997c5e8137638640d3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 59/60] fix: control of the internal solid-only blockmap never
 ended, keeping it in memory, when nodes switched to Zdoom format or a level
 had nothing to build from

---
 level.go    |  9 +++++----
 nodegen.go  | 24 ++++++++++++++++--------
 znodegen.go | 10 +++-------
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/level.go b/level.go
index 1a7b7d1..8b8ae35 100755
--- a/level.go
+++ b/level.go
@@ -411,15 +411,16 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	// All lumps belonging to this level were read from source
 	// Code from here is executed ONCE for entire level
 
-	// If either reject or nodes not used, we need to shutdown solid-only
-	// blockmap builder control on their behalf here
-	if bcontrol != nil && rejectSkip {
+	// If either reject or nodes not used (or there is nothing to build them
+	// from), we need to shutdown solid-only blockmap builder control on their
+	// behalf here
+	if bcontrol != nil && l.RejectChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_REJECT,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
-	if bcontrol != nil && !config.RebuildNodes {
+	if bcontrol != nil && l.NodesChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_NODES,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
diff --git a/nodegen.go b/nodegen.go
index 6099784..0e4c616 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -345,6 +345,17 @@ const (
 	NONCONVEX_MULTISECTOR
 )
 
+// doneWithSolidBlockmap tells solid blocks control that it won't be needed by
+// nodes anymore, if it was requested
+func (input *NodesInput) doneWithSolidBlockmap(requestedSolid bool) {
+	if requestedSolid {
+		input.bcontrol <- BconRequest{
+			Sender:  SOLIDBLOCKS_NODES,
+			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+		}
+	}
+}
+
 // goroutine, replies on input.nodesChan
 func NodesGenerator(input *NodesInput) {
 	start := time.Now()
@@ -632,6 +643,7 @@ func NodesGenerator(input *NodesInput) {
 			rootNode = VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
 			if rootNode == nil {
+				input.doneWithSolidBlockmap(requestedSolid)
 				return // message was sent from Zdoom generator spawned from dispatch
 			}
 		} else {
@@ -706,6 +718,7 @@ func NodesGenerator(input *NodesInput) {
 		rootNode, treeCount = MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
 		if rootNode == nil {
+			input.doneWithSolidBlockmap(requestedSolid)
 			return // message was sent from Zdoom generator spawned from dispatch
 		}
 	} else {
@@ -735,14 +748,9 @@ func NodesGenerator(input *NodesInput) {
 		workData.totals.numSSectors, workData.totals.numNodes,
 		workData.totals.numSegs, workData.totals.segSplits)
 
-	if requestedSolid {
-		// If requested solid blockmap before, tell them we are done with it
-		// - the CreateNode() ran its course
-		input.bcontrol <- BconRequest{
-			Sender:  SOLIDBLOCKS_NODES,
-			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
-		}
-	}
+	// If requested solid blockmap before, tell them we are done with it
+	// - the CreateNode() ran its course
+	input.doneWithSolidBlockmap(requestedSolid)
 	hLeft := 0
 	hRight := 0
 	if rootNode.nextL != nil {
diff --git a/znodegen.go b/znodegen.go
index af113ee..495420e 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -397,6 +397,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 			rootNode = ZExt_VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
 			if rootNode == nil {
+				input.doneWithSolidBlockmap(requestedSolid)
 				return
 			}
 		} else {
@@ -454,6 +455,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		rootNode, treeCount = ZExt_MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
 		if rootNode == nil {
+			input.doneWithSolidBlockmap(requestedSolid)
 			return
 		}
 	} else {
@@ -470,13 +472,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		workData.totals.numSSectors, workData.totals.numNodes,
 		workData.totals.numSegs, workData.totals.segSplits)
 
-	if requestedSolid {
-
-		input.bcontrol <- BconRequest{
-			Sender:  SOLIDBLOCKS_NODES,
-			Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
-		}
-	}
+	input.doneWithSolidBlockmap(requestedSolid)
 	hLeft := 0
 	hRight := 0
 	if rootNode.nextL != nil {
-- 
2.43.0


From 6795d62bce859e79a52698ebb3e148519bff4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 60/60] verif: optional wait at the end of the write bus, built
 with tag verif only

---
 verif_on.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verif_on.go b/verif_on.go
index 6bab477..fc57782 100644
--- a/verif_on.go
+++ b/verif_on.go
@@ -16,6 +16,8 @@ import (
 // with tag verif, and controlled by environment variables:
 // VV_TRACE - name of file to which events are written in the order they happened
 // VV_JITTER - seed for delays introduced at trace points, to vary the schedule
+// VV_LINGER - milliseconds to wait before the program ends, so that all goroutines
+// that can come to their end do so
 // VV_ROOT - the only candidate for root that multi-tree modes should try
 
 var verifMutex sync.Mutex
@@ -48,6 +50,10 @@ func verifEvent(what string, args ...int) {
 		delay = verifSeed >> 33
 	}
 	verifMutex.Unlock()
+	if what == "busdone" {
+		ms, _ := strconv.Atoi(os.Getenv("VV_LINGER"))
+		time.Sleep(time.Duration(ms) * time.Millisecond)
+	}
 	if delay%4 == 1 {
 		runtime.Gosched()
 	} else if delay%4 > 1 {
-- 
2.43.0

