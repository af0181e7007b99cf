From 089bc1183d4e09b53b2b3e78450921320115119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 01/76] fix: NormalizedString: keep both alignments valid
 through every transformation

TransformRange patched the original alignments in place, through slices shared
with the normalized alignments and between bytes, and indexed them with
normalized offsets: depending on the history it corrupted offsets or panicked.
Derive the original alignments from the normalized ones instead, and align
invalid UTF-8 bytes one by one.
---
 normalizer/normalized.go | 437 +++++++--------------------------------
 1 file changed, 80 insertions(+), 357 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..b8fabeb 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -7,7 +7,6 @@ import (
 	"unicode"
 	"unicode/utf8"
 
-	"github.com/sugarme/tokenizer/util"
 	slice "github.com/sugarme/tokenizer/util/slice"
 
 	"golang.org/x/text/unicode/norm"
@@ -174,15 +173,10 @@ func NewNormalizedFrom(s string) (retVal *NormalizedString) {
 // (data elements are in different memory locations).
 func createAligns(s string) [][]int {
 	var alignments [][]int
-	currIdx := 0
-	for i, r := range []rune(s) {
-		charLen := len([]byte(string(r)))
-		var align []int
-		if i == 0 {
-			align = []int{0, charLen}
-		} else {
-			align = []int{currIdx, currIdx + charLen}
-		}
+	for currIdx := 0; currIdx < len(s); {
+		// NOTE. an invalid byte is a char on its own
+		_, charLen := utf8.DecodeRuneInString(s[currIdx:])
+		align := []int{currIdx, currIdx + charLen}
 		for byteIdx := 0; byteIdx < charLen; byteIdx++ {
 			alignments = append(alignments, align)
 		}
@@ -439,392 +433,121 @@ type ChangeMap struct {
 // of removed chars at the very beginning.
 func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeMap, initialOffset int) (retVal *NormalizedString) {
 
-	// fmt.Printf("normalized: %+v\n", n)
-	// fmt.Printf("inputRange: %v\n", inputRange)
-
-	// I. Update `original` alignments based on `initialOffset`.
-	// If `initialOffset` > 0, there are some chars being replaced.
-
-	// I.1. Determine range on `original` string and `normalized` string
-	// based on `inputRange`
+	// I. Determine range on `normalized` string based on `inputRange`
 	var nRange *Range
 	switch inputRange.indexOn {
 	case NormalizedTarget:
 		nRange = inputRange.IntoFullRange(n.Len())
 	case OriginalTarget:
 		nRange = n.ConvertOffset(inputRange)
+		if nRange == nil {
+			return n
+		}
 	}
 
-	// NOTE: temp fix out of range occured at bpe training example
-	if nRange.end > len(n.alignments) {
-		nRange.end = len(n.alignments)
-	}
-
-	// fmt.Printf("nRange: %v\n", nRange)
-
-	// I.2. Get removed chars to a slice (`removedChars`); number of removed
-	// bytes (`initialRemoved`); and update original alignments (`n.alignmensOriginal`)
-
-	// log.Printf("===== TransformRange call (initial offset: %v) ====\n", initialOffset)
-	// Retrieve the original characters that are being replaced. This let us
-	// compute the change in byte sizes along the way.
-	nBytes := []byte(n.normalized)[nRange.start:nRange.end]
-	replacedNormalized := util.NewRuneIter(bytes.Runes(nBytes))
-	/*
-	 *   fmt.Printf("replaceddNoramlized len: %v\n", replacedNormalized.Len())
-	 *   fmt.Printf("replacedNormalized: %+q\n", func(it *util.RuneIter) []string {
-	 *     var chars []string
-	 *     for {
-	 *       r, ok := it.Next()
-	 *       if !ok {
-	 *         break
-	 *       }
-	 *       chars = append(chars, string(r))
-	 *     }
-	 *     return chars
-	 *   }(replacedNormalized))
-	 *  */
-	replacedNormalized.Reset()
-
-	// Handle the initial offset in the original alignment. All the characters
-	// that were removed from the normalized one should have their width reduced
-	// by the number of bytes we remove
-	endShiftStart := nRange.end
-	initialRemoved := 0
-	if initialOffset > 0 {
-		// log.Printf("=> Clearing alignment for %v chars\n", initialOffset)
-		removedBytes := 0
-		var removedChars []rune
-		for i := 0; i < initialOffset; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
-			}
-			removedBytes += len([]byte(string(c)))
-			removedChars = append(removedChars, c)
+	// The characters being replaced, consumed one at a time along the way.
+	replaced := n.normalized[nRange.start:nRange.end]
+	nextReplaced := func() (size int, ok bool) {
+		if len(replaced) == 0 {
+			return 0, false
 		}
-		initialRemoved = removedBytes
-		offset := nRange.start
-		oShift := 0
-		// Then we remove all these chars, updating the alignments along the way
-		for _, c := range removedChars {
-			removedORange := expandAlignments(n.alignments[offset : offset+len(string(c))])
-			offset += len(string(c))
-			oShift += len(string(c))
-			alignments := n.alignmentsOriginal[removedORange[0]:removedORange[1]]
-			// log.Printf("Clearing alignments for char: %q - alignments: %+v\n", c, alignments)
-			// 1. Get new alignments
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				// At the very end we will apply the global shift to the remaining
-				// original offsets. We should start after these to avoid doing it twice
-				if offsets[1] > endShiftStart {
-					endShiftStart = offsets[1]
-				}
-
-				offsets[1] = applySign(offsets[1], -(oShift))
-				// Make sure the starting offset is always smaller or equal to the end
-				if offsets[0] > offsets[1] {
-					offsets[0] = offsets[1]
-				}
-
-				newAlignments = append(newAlignments, offsets)
-			}
-			// 2. Update alignmentOriginal with new alignments in `removedORange` range
-			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
-			aligns = append(aligns, n.alignmentsOriginal[removedORange[1]:]...)
-			n.alignmentsOriginal = aligns
+		_, size = utf8.DecodeRuneInString(replaced)
+		replaced = replaced[size:]
+		return size, true
+	}
 
-			// log.Printf("Cleared: %+v\n", alignments)
+	// Skip all the characters removed at the very beginning
+	offset := nRange.start
+	for i := 0; i < initialOffset; i++ {
+		size, ok := nextReplaced()
+		if !ok {
+			break
 		}
-	} // end `If` block
-
-	// II.	Do the transformation based on input `changeMap`.
-	// 1. 	Update alignments on normalized string(`n.alignments`) and original
-	// 			string (`n.alignmentsOriginal`);
-	// 2. 	collect transformed `chars` to a string
-	// 			variable (`normalized`)
-
-	// oShift is the shift to be applied to all original alignments along the way
-	// NOTE. `oShift` and `offset` here are different from ones inside previous block
-	oShift := -(initialRemoved)
-	offset := initialRemoved + nRange.start
-	var normalizedAlignments [][]int
+		offset += size
+	}
 
-	// log.Printf("Applying transformations...\n")
+	// II. Do the transformation based on input `changeMap`: collect the new
+	// chars, and the alignment of each of their bytes.
 	var (
-		normalizedRunes []rune
+		normalized           strings.Builder
+		normalizedAlignments [][]int
 	)
-
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
-		/*
-		 *     var changeType string
-		 *     switch {
-		 *     case item.Changes == 0:
-		 *       changeType = "Replacing"
-		 *     case item.Changes > 0:
-		 *       changeType = "Adding"
-		 *     case item.Changes < 0:
-		 *       changeType = fmt.Sprintf("Replacing + Removing %v following chars", item.Changes)
-		 *     default:
-		 *       changeType = "Undefined"
-		 *     }
-		 *     // log.Printf("### %+q with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     // log.Printf("### '%v' with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     fmt.Printf("'%v' - changes: %v\n", item.RuneVal, item.Changes)
-		 *  */
-		idx := offset
-		// fmt.Printf("idx: %v\n", idx)
 		var align []int
-		if item.Changes > 0 {
-			if idx < 1 {
-				align = []int{0, 0}
-			} else {
-				// This is a newly inserted character, so it shares the same alignment
-				// as the previous one
-				align = n.alignments[idx-1]
-			}
-		} else {
-			if idx >= len(n.alignments) {
-				align = n.alignments[len(n.alignments)-1]
-			} else {
-				align = n.alignments[idx]
-			}
+		switch {
+		case item.Changes > 0 && offset < 1:
+			align = []int{0, 0}
+		case item.Changes > 0:
+			// This is a newly inserted character, so it shares the same alignment
+			// as the previous one
+			align = n.alignments[offset-1]
+		case offset < len(n.alignments):
+			align = n.alignments[offset]
+		case len(n.alignments) > 0:
+			align = n.alignments[len(n.alignments)-1]
+		default:
+			align = []int{0, 0}
 		}
 
-		// If we are replacing a character, find it and compute the change in size
-		var replacedChar rune
+		// If we are replacing a character, and removing some of the following
+		// ones, skip them
 		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
-		}
-		replacedCharSize := 0
-		if replacedChar > 0 {
-			replacedCharSize = len([]byte(string(replacedChar)))
-		}
-		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
-			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
-		}
-
-		// If we are removing some characters, find them too
-		var nChanges int = 0
-		if item.Changes < 0 {
-			nChanges = -item.Changes
-		}
-
-		var (
-			removedChars       []rune
-			totalBytesToRemove int
-		)
-		for i := 0; i < nChanges; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				// log.Fatalf("2. Expected to remove %v characters but couldn't find them ...\n", nChanges)
-			}
-			removedChars = append(removedChars, c)
-			totalBytesToRemove += len(string(c))
-		}
-		// fmt.Printf("removedChars: %+q\n", string(removedChars))
-		// log.Printf("Total bytes to remove: %v\n", totalBytesToRemove)
-
-		// If we are removing characters, there are two possible scenarios:
-		//   1. We remove characters that are part of the original string (most likely)
-		//   2. We remove characters that were previously added (with NFD for example)
-		//      and are just part of the normalized string
-
-		var removingFromOriginal, removingFromNormalized int = 0, 0
-		// Guard: idx may equal len(n.alignments) when removals fall at the very end of the string.
-		if totalBytesToRemove > 0 && idx < len(n.alignments) {
-			start := n.alignments[idx][1]
-			// Bounds check to prevent index out of range panic
-			endIdx := idx + totalBytesToRemove
-			if endIdx >= len(n.alignments) {
-				endIdx = len(n.alignments) - 1
-			}
-			end := n.alignments[endIdx][1]
-			originalRange := util.MakeRange(start, end)
-			// fmt.Printf("start: %v - end: %v; range: (%+v)\n", start, end, originalRange)
-			removingFromOriginal = len(originalRange)
-			removingFromNormalized = totalBytesToRemove - len(originalRange)
-
-			// log.Printf("Bytes to remove from original alignments: %v\n", removingFromOriginal)
-			// log.Printf("Bytes to remove from normalized alignments: %v\n", removingFromNormalized)
-		}
-
-		// Update the original alignments for the **current** `char`
-		// fmt.Printf("align: %v\n", align)
-		// fmt.Printf("current alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		alignments := n.alignmentsOriginal[align[0]:align[1]]
-		// fmt.Printf("alignments: %+v\n", alignments)
-		if len(alignments) > 0 {
-			// log.Printf("Updating original alignments: %+v\n", alignments)
-
-			// Let's compute the actual change in size for the original alignment.
-			// This value may be different than `replacedCharSizeChange` because the
-			// char might not exist in the original string. It might have been added.
-			originalRange := expandAlignments(alignments)
-
-			replacedCharSizeChangeOriginal := len(item.RuneVal) - (originalRange[1] - originalRange[0])
-			// log.Printf("Change in size for the current char: %v\n", replacedCharSizeChange)
-			// log.Printf("Change in size in the original alignment for the current char: %v\n", replacedCharSizeChangeOriginal)
-
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				var newAlign []int = make([]int, 2)
-
-				// A new char is being added, we need to extend the current
-				// alignment. No need to apply the shift in this case as it
-				// should have been applied already (with a previous changes == 0).
-				if item.Changes > 0 {
-					newAlign[0] = offsets[0]
-					newAlign[1] = offsets[1] + len(item.RuneVal)
-				} else {
-					// Otherwise we just apply the shift
-					newAlign[0] = offsets[0]
-					newAlign[1] = applySign(offsets[1], replacedCharSizeChange)
-					newAlign[1] = applySign(newAlign[1], -(removingFromNormalized))
-
-					// NOTE: We only apply oShift if we are:
-					// - Removing characters
-					// - Replacing one, that has the same size in both normalized and
-					//   original alignments.
-					// Otherwise it means we are modifying multiple times the same
-					// original character. This happens when normalized characters
-					// are added (not part of the original), and then replaced.
-					if item.Changes < 0 || replacedCharSizeChange == replacedCharSizeChangeOriginal {
-						newAlign[0] = applySign(newAlign[0], oShift)
-						newAlign[1] = applySign(newAlign[1], oShift)
-					}
+			for i := 0; i <= -item.Changes; i++ {
+				size, ok := nextReplaced()
+				if !ok {
+					break
 				}
-
-				newAlignments = append(newAlignments, newAlign)
-			}
-
-			// Now, update original alignments for current `char` with new alignments
-			// fmt.Printf("newAlignments: %+v\n", newAlignments)
-			var aligns [][]int
-			if align[0] == 0 {
-				aligns = append(newAlignments, n.alignmentsOriginal[align[1]:]...)
-			} else {
-				aligns = append(n.alignmentsOriginal[:align[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[align[1]:]...)
+				offset += size
 			}
-			n.alignmentsOriginal = aligns
-			// log.Printf("Updated to: %+v\n", newAlignments)
-			// fmt.Printf("current n.alignmentsOriginal: %+v\n", n.alignmentsOriginal)
 		}
 
-		// If some were removed, we need to zero them out in the original alignments
-		if removingFromOriginal > 0 {
-			start := n.alignments[idx][1]
-			end := n.alignments[idx+totalBytesToRemove][1]
-			// They should use the original alignment of the current character
-			newIdx := n.alignmentsOriginal[align[0]][1]
-			alignments := n.alignmentsOriginal[start:end]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Removing original alignments: %v\n", alignments)
-				for _, offsets := range alignments {
-					offsets[0] = newIdx
-					offsets[1] = newIdx
-					newAlignments = append(newAlignments, offsets)
-				}
-
-				aligns := append(n.alignmentsOriginal[:start], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[end:]...)
-				n.alignmentsOriginal = aligns
-			}
-		}
-
-		// Keep track of the changes for next offsets
-		offset += replacedCharSize
-		offset += totalBytesToRemove
-		// For the original only the real modifications count
-		oShift += replacedCharSizeChange
-		oShift -= totalBytesToRemove
-		// log.Printf("New normalized alignment: %vx %v\n", len(item.RuneVal), align)
-
 		for i := 0; i < len(item.RuneVal); i++ {
 			normalizedAlignments = append(normalizedAlignments, align)
 		}
 
 		// Then we keep only the char for string reconstruction
-		normalizedRunes = append(normalizedRunes, []rune(item.RuneVal)...)
+		normalized.WriteString(item.RuneVal)
+	}
 
-		// fmt.Printf("replacedCharSize: %v\n", replacedCharSize)
-		// fmt.Printf("totalBytesToRemove: %v\n", totalBytesToRemove)
-		// fmt.Printf("next offset: %v\n", offset)
+	// III. Replace alignments with new ones in range, then change the
+	// `normalized` string
+	newAlignments := make([][]int, 0, nRange.start+len(normalizedAlignments)+len(n.alignments)-nRange.end)
+	newAlignments = append(newAlignments, n.alignments[:nRange.start]...)
+	newAlignments = append(newAlignments, normalizedAlignments...)
+	newAlignments = append(newAlignments, n.alignments[nRange.end:]...)
 
-	} // End of `For` block
+	n.normalized = n.normalized[:nRange.start] + normalized.String() + n.normalized[nRange.end:]
+	n.alignments = newAlignments
+	n.alignmentsOriginal = originalAlignments(newAlignments, n.LenOriginal())
 
-	// Apply the changes to the remaining original alignments
-	if oShift != 0 {
-		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
+	return n
+}
 
-		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
-			endShift = append(endShift, item)
-		}
-		endRange := expandAlignments(endShift)
-
-		// log.Printf("End range: %+v\n", endRange)
-
-		if endRange != nil {
-			alignments := n.alignmentsOriginal[endRange[0]:endRange[1]]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Alignments before shifting: %+v\n", alignments)
-				for _, offsets := range alignments {
-					newOffset0 := applySign(offsets[0], oShift)
-					newOffset1 := applySign(offsets[1], oShift)
-					newAlignments = append(newAlignments, []int{newOffset0, newOffset1})
-				}
-				aligns := append(n.alignmentsOriginal[:endRange[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[endRange[1]:]...)
-				n.alignmentsOriginal = aligns
-				// log.Printf("After: %+v\n", newAlignments)
+// originalAlignments derives the mapping from each byte of the original string
+// to the normalized one, from the mapping of each byte of the normalized string
+// to the original one. A byte which does not appear in the normalized string is
+// mapped to the empty range right after whatever precedes it.
+func originalAlignments(alignments [][]int, lenOriginal int) [][]int {
+	retVal := make([][]int, lenOriginal)
+	for i, a := range alignments {
+		for j := max(a[0], 0); j < a[1] && j < lenOriginal; j++ {
+			if retVal[j] == nil {
+				retVal[j] = []int{i, i + 1}
+			} else {
+				retVal[j][1] = i + 1
 			}
 		}
 	}
 
-	// replace alignments with new ones in range
-	var newAlignments [][]int
-	// fmt.Printf("nRange: %v\n", nRange)
-	// fmt.Printf("normalizedAlignments: %+v\n", normalizedAlignments)
-	// fmt.Printf("alignments to be replaced: %v\n", n.alignments[nRange.start:nRange.end])
-	// fmt.Printf("normalized alignments before action: %v\n", n.alignments)
-	if len(n.alignments[:nRange.start]) == 0 { // at the beginning
-		newAlignments = append(normalizedAlignments, n.alignments[nRange.end:]...)
-	} else { // in the middle
-		var beforeAligns, afterAligns [][]int
-		for i, a := range n.alignments {
-			if i < nRange.start {
-				beforeAligns = append(beforeAligns, a)
-			}
-			if i >= nRange.end {
-				afterAligns = append(afterAligns, a)
-			}
+	end := 0
+	for j := range retVal {
+		if retVal[j] == nil {
+			retVal[j] = []int{end, end}
 		}
-		newAlignments = append(beforeAligns, normalizedAlignments...)
-		newAlignments = append(newAlignments, afterAligns...)
+		end = retVal[j][1]
 	}
-	n.alignments = newAlignments
 
-	// Finally, change the `normalized` string
-	newNormalized := n.normalized[:nRange.start] + string(normalizedRunes) + n.normalized[nRange.end:]
-	n.normalized = newNormalized
-
-	// log.Printf("New normalized alignments: %+v\nNew original alignments: %+v\n", n.alignments, n.alignmentsOriginal)
-	// log.Printf("New normalized string: %q\n", n.normalized)
-
-	return n
+	return retVal
 }
 
 // Transform applies transformations to the current normalized version, updating the current
-- 
2.43.0


From 471249e0abcd93b2aadee6f8fcad55d778590e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 02/76] fix: NormalizedString: slice and convert any range
 without panicking

Slicing an empty range at the end, a range out of order, or one whose
counterpart is elsewhere in the other string indexed out of range; ConvertOffset
changed the range of its caller; Transform missed what was added around the
original string.
---
 normalizer/normalized.go | 75 ++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index b8fabeb..91e04f6 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -233,6 +233,8 @@ func (n *NormalizedString) Shift() int {
 func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	lenOriginal := n.LenOriginal()
 	lenNormalized := n.Len()
+	// Work on a copy, the range belongs to the caller
+	inputRange = NewRange(inputRange.start, inputRange.end, inputRange.indexOn)
 	var (
 		isOriginal bool
 		target     *Range
@@ -270,7 +272,7 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	// Otherwise, just convert them.
 	// NOTE. if out of bound, return nil
 	var lowerB, upperB int = 0, len(alignments)
-	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB {
+	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB || target.start > target.end {
 		return nil
 	}
 
@@ -286,6 +288,9 @@ func (n *NormalizedString) Range(r *Range) (retVal string) {
 	switch r.indexOn {
 	case OriginalTarget:
 		nRange := n.ConvertOffset(r)
+		if nRange == nil {
+			return ""
+		}
 		retVal = string(bytes[nRange.start:nRange.end])
 	case NormalizedTarget:
 		nRange := r.IntoFullRange(n.Len())
@@ -302,6 +307,9 @@ func (n *NormalizedString) RangeOriginal(r *Range) (retVal string) {
 	switch r.indexOn {
 	case NormalizedTarget:
 		oRange := n.ConvertOffset(r)
+		if oRange == nil {
+			return ""
+		}
 		retVal = string(bytes[oRange.start:oRange.end])
 	case OriginalTarget:
 		oRange := r.IntoFullRange(n.LenOriginal())
@@ -333,7 +341,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Basic bounds check
-	if r.start < 0 || r.end < 0 || r.start > len(s) || r.end > len(s) {
+	if r.start < 0 || r.end < 0 || r.start > len(s) || r.end > len(s) || r.start > r.end {
 		return nil
 	}
 
@@ -343,7 +351,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
+	if r.start != 0 && r.start != len(s) {
 		// If not the very start, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
@@ -373,50 +381,53 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	switch fullRange.indexOn {
 	case OriginalTarget:
 		nRange = n.ConvertOffset(fullRange)
+		if fullRange.start == fullRange.end {
+			nRange = emptyRangeAt(n.alignmentsOriginal, fullRange.start, NormalizedTarget)
+		}
 		oRange = fullRange
 	case NormalizedTarget:
 		nRange = fullRange
 		oRange = n.ConvertOffset(fullRange)
+		if fullRange.start == fullRange.end {
+			oRange = emptyRangeAt(n.alignments, fullRange.start, OriginalTarget)
+		}
 	}
 
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-	// 3. `oShift` is original shift on original string
-	var oShift int
-	if r := expandAlignments(n.alignmentsOriginal[0:nShift]); r == nil {
-		oShift = 0
-	} else {
-		oShift = r[1]
-	}
-
-	var (
-		sOriginal, sNormalized           string
-		sAlignments, sAlignmentsOriginal [][]int
-		sOriginalShift                   int
-	)
-
-	sOriginal = n.RangeOriginal(fullRange)
-	sNormalized = n.Range(fullRange)
+	// 3. Shift the alignments, which cannot reach outside of the slice
+	lenOriginal := oRange.end - oRange.start
+	sAlignments := make([][]int, 0, nRange.end-nRange.start)
 	for _, a := range n.alignments[nRange.start:nRange.end] {
-		sAlignment := []int{a[0] - nShift, a[1] - nShift}
-		sAlignments = append(sAlignments, sAlignment)
-	}
-	for _, a := range n.alignmentsOriginal[oRange.start:oRange.end] {
-		sAlignmentOriginal := []int{a[0] - oShift, a[1] - oShift}
-		sAlignmentsOriginal = append(sAlignmentsOriginal, sAlignmentOriginal)
+		sAlignments = append(sAlignments, []int{
+			min(max(a[0]-nShift, 0), lenOriginal),
+			min(max(a[1]-nShift, 0), lenOriginal),
+		})
 	}
-	sOriginalShift = n.originalShift + oRange.start
 
 	return &NormalizedString{
-		original:           sOriginal,
-		normalized:         sNormalized,
+		original:           n.original[oRange.start:oRange.end],
+		normalized:         n.normalized[nRange.start:nRange.end],
 		alignments:         sAlignments,
-		alignmentsOriginal: sAlignmentsOriginal,
-		originalShift:      sOriginalShift,
+		alignmentsOriginal: originalAlignments(sAlignments, lenOriginal),
+		originalShift:      n.originalShift + oRange.start,
 	}
 }
 
+// emptyRangeAt returns the empty range which corresponds to the given position
+// in the referential the given alignments start from.
+func emptyRangeAt(alignments [][]int, pos int, indexOn IndexOn) *Range {
+	at := 0
+	if pos < len(alignments) {
+		at = alignments[pos][0]
+	} else if len(alignments) > 0 {
+		at = alignments[len(alignments)-1][1]
+	}
+
+	return NewRange(at, at, indexOn)
+}
+
 type ChangeMap struct {
 	RuneVal string
 	Changes int
@@ -580,9 +591,7 @@ func originalAlignments(alignments [][]int, lenOriginal int) [][]int {
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	wholeRange := NewRange(0, n.Len(), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From cb8efba322cb67840fe3f1375edafd1a73d5fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 03/76] fix: NFC, NFD, NFKC and NFKD give the normal form,
 aligned with the text

NFC decomposed, NFKC composed nothing, NFKD dropped the string when it was
normalized already, and NFD misaligned all that follows a combining mark which
was in the text already.
---
 normalizer/normalized.go | 175 ++++++++-------------------------------
 1 file changed, 35 insertions(+), 140 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 91e04f6..8394382 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1,7 +1,6 @@
 package normalizer
 
 import (
-	"bytes"
 	"log"
 	"strings"
 	"unicode"
@@ -595,162 +594,58 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-func (n *NormalizedString) NFD() (retVal *NormalizedString) {
-
+// unicodeForm applies a Unicode normalization form, one segment at a time. A
+// `segment` is a smallest part of the string which is normalized independently
+// from the rest: a starter, followed by all that may combine with it.
+func (n *NormalizedString) unicodeForm(form norm.Form) (retVal *NormalizedString) {
 	s := n.normalized
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-	// Create slice of (char, changes) to map changing
-	// if added (inserted) rune, changes = 1; `-N` if char
-	// right before N removed chars
-	// changes = 0 if this represents the old one (even if changed)
-
-	// Iterating over string and apply tranformer (NFD). One character at a time
-	// A `character` is defined as:
-	// - a sequence of runes that starts with a starter,
-	// - a rune that does not modify or combine backwards with any other rune,
-	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
-	// We will iterate over string and apply transformer to each char
-	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	// for i, c := range changeMap {
-	// fmt.Printf("%v - Char: %+q - changes: %v\n", i, c.RuneVal, c.Changes)
-	// }
-
-	return n.Transform(changeMap, 0)
-}
-
-func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
+	if form.IsNormalString(s) {
 		return n
 	}
 
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
+	var changeMap []ChangeMap
+	for len(s) > 0 {
+		size := form.NextBoundaryInString(s, true)
+		segment := s[:size]
+		s = s[size:]
+		runes := []rune(form.String(segment))
+		replaced := utf8.RuneCountInString(segment)
+
+		// Runes replace the ones at the same position in the segment, then
+		// `changes` is 1 for the runes being added, or `-N` for the last rune if
+		// N runes of the segment are left to remove.
 		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
+			changes := 0
+			switch {
+			case i >= replaced:
+				changes = 1
+			case i == len(runes)-1:
+				changes = len(runes) - replaced
 			}
+			changeMap = append(changeMap, ChangeMap{
+				RuneVal: string(r),
+				Changes: changes,
+			})
 		}
 	}
 
 	return n.Transform(changeMap, 0)
 }
 
-func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
-	}
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	it.InitString(norm.NFKD, s)
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
+func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+	return n.unicodeForm(norm.NFD)
+}
 
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
+func (n *NormalizedString) NFC() (retVal *NormalizedString) {
+	return n.unicodeForm(norm.NFC)
+}
 
-	return n.Transform(changeMap, 0)
+func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
+	return n.unicodeForm(norm.NFKD)
 }
 
 func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.unicodeForm(norm.NFKC)
 }
 
 // Filter applies filtering on NormalizedString
-- 
2.43.0


From 027d538096ee5bf12ccc0d1b9b98521148fa6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 04/76] fix: NormalizedString: Lowercase, Uppercase, Map and
 ForEach change each char in place

Changing case left the alignments of the former string behind, of another
length when the case change does not keep the size of a char, and Map ignored
its function.
---
 normalizer/normalized.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 8394382..5e961b7 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -751,7 +751,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
@@ -760,14 +760,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
@@ -779,16 +772,12 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
-- 
2.43.0


From 12c6eaa42ac6d0a34a93502b26f3db57afe08f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 05/76] fix: BertNormalizer: turn every whitespace into a
 space, strip precomposed accents

Whitespaces were replaced only next to a removed char, accents were stripped
only where the text was decomposed already, and the space before a Chinese char
was aligned with the char before.
---
 normalizer/bert.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..6621e38 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
@@ -161,11 +161,11 @@ func doHandleChineseChars(n *NormalizedString) *NormalizedString {
 			changeMap = append(changeMap, []ChangeMap{
 				{
 					RuneVal: string(' '),
-					Changes: 1,
+					Changes: 0,
 				},
 				{
 					RuneVal: string(r),
-					Changes: 0,
+					Changes: 1,
 				},
 				{
 					RuneVal: string(' '),
@@ -185,7 +185,8 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	// Decompose first, an accent may be part of a precomposed character
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
-- 
2.43.0


From 0de84832486cdbc4e3b7db5228e3a3f36fa5b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 06/76] fix: Prepend normalizer gives an empty string back
 instead of nil

---
 normalizer/prepend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 2b98fba990c4b090f6b34ae48d9908f9216a7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 07/76] fix: Precompiled: normalize the whole string, with the
 rules which remove text

Precompiled.Normalize looked up the first char of a grapheme for all its chars,
wrote non-spacing marks out as their code points, and misplaced every alignment;
NormalizeString stopped after the first grapheme with a rule; both ignored the
rules which replace a char with nothing.
---
 normalizer/precompiled.go | 63 +++++++++++++++------------------------
 spm/spm-precompiled.go    | 23 +++++++++-----
 2 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..fccfdbc 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -1,7 +1,7 @@
 package normalizer
 
 import (
-	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/spm"
 
@@ -9,32 +9,29 @@ import (
 )
 
 func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
-	oldCount := len(strings.Split(oldPart, ""))
-	newCount := len(strings.Split(newPart, ""))
-	diff := newCount - oldCount
-
-	// If just replacing characters, all changes should be == 0
-	for _, c := range strings.Split(newPart, "") {
-		t := ChangeMap{
-			RuneVal: c,
-			Changes: 0,
-		}
-		transformations = append(transformations, t)
-	}
+	oldCount := utf8.RuneCountInString(oldPart)
+	newRunes := []rune(newPart)
 
-	// log.Printf("transformations: %+v - diff: %v\n", transformations, diff)
+	// If removing all the characters, there is none left to carry the change
+	if len(newRunes) == 0 {
+		return append(transformations, ChangeMap{RuneVal: "", Changes: -(oldCount - 1)})
+	}
 
-	n := len(transformations)
-	switch {
-	case diff > 0:
-		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
-			transformations[i].Changes = 1
+	for i, r := range newRunes {
+		// If just replacing characters, all changes should be == 0
+		changes := 0
+		switch {
+		case i >= oldCount:
+			// If adding some characters, the last diff characters should be == 1
+			changes = 1
+		case i == len(newRunes)-1:
+			// If removing some characters, the last one should include the diff
+			changes = len(newRunes) - oldCount
 		}
-	case diff < 0:
-		// If removing some characters, the last one should include the diff
-		n := len(transformations)
-		transformations[n-1].Changes += diff
+		transformations = append(transformations, ChangeMap{
+			RuneVal: string(r),
+			Changes: changes,
+		})
 	}
 
 	return transformations
@@ -48,10 +45,6 @@ type Precompiled struct {
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	original := normalized.GetNormalized()
 	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
-	}
-
 	graphemes := uniseg.NewGraphemes(original)
 
 	var modified bool
@@ -60,8 +53,7 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 		grapheme := graphemes.Str()
 
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(grapheme); ok {
 				modified = true
 				transformations = replace(transformations, grapheme, norm)
 
@@ -69,15 +61,9 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 			}
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
-			if len(norm) > 0 {
+			part := string(r)
+			if norm, ok := m.Lookup(part); ok {
 				modified = true
 				transformations = replace(transformations, part, norm)
 			} else {
@@ -87,7 +73,6 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 				}
 				transformations = append(transformations, t)
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..a323dc3 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -144,10 +144,19 @@ func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
 	}, nil
 }
 
+// Transform returns what the given chunk is replaced with, or an empty string
+// if there is no rule for it.
 func (m *Precompiled) Transform(chunk string) string {
+	normalized, _ := m.Lookup(chunk)
+	return normalized
+}
+
+// Lookup returns what the given chunk is replaced with, possibly an empty
+// string, and whether there is any rule for it.
+func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	results := m.Trie.CommonPrefixSearch([]byte(chunk))
 	if len(results) == 0 {
-		return ""
+		return "", false
 	}
 
 	index := results[0]
@@ -161,7 +170,7 @@ func (m *Precompiled) Transform(chunk string) string {
 
 	normalized := m.Normalized[index:index2]
 
-	return string(normalized)
+	return string(normalized), true
 }
 
 func NormalizeMn(input string) string {
@@ -202,12 +211,11 @@ func (m *Precompiled) NormalizeString(original string) string {
 		// break a single test.
 		// You don't pass.
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(grapheme); ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-				return strings.Join(chars, "")
+				continue
 			}
 		}
 
@@ -217,9 +225,8 @@ func (m *Precompiled) NormalizeString(original string) string {
 		var charIdx int = 0
 		for _, r := range grapheme {
 			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = normalizeMn(norm)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(part); ok {
+				norm = normalizeMn(norm)
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-- 
2.43.0


From bb8f995f3d6af5da9cf3054bac96e491e412fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 08/76] fix: Precompiled: reject a malformed charsmap instead
 of panicking

---
 spm/spm-precompiled.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index a323dc3..ee03395 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -98,6 +98,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(c)
+		if nodePos >= len(da.Array) {
+			return results
+		}
 		unit = da.Array[nodePos]
 
 		if unit.Label() != uint(c) {
@@ -105,7 +108,7 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(unit.Offset())
-		if unit.HasLeaf() {
+		if unit.HasLeaf() && nodePos < len(da.Array) {
 			results = append(results, int(da.Array[nodePos].Value()))
 		}
 	}
@@ -132,6 +135,14 @@ func Parse(precompiledCharsmap []byte) ([]byte, Array) {
 }
 
 func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
+	if len(data) < 4 {
+		return nil, fmt.Errorf("invalid precompiled charsmap: %d bytes", len(data))
+	}
+	trieSize := binary.LittleEndian.Uint32(data[:4])
+	if trieSize < 4 || uint64(trieSize) > uint64(len(data)-4) {
+		return nil, fmt.Errorf("invalid precompiled charsmap: trie of %d bytes in %d bytes", trieSize, len(data))
+	}
+
 	normalizedBlob, trieBlob := Parse(data)
 
 	normalized := string(normalizedBlob)
@@ -159,7 +170,7 @@ func (m *Precompiled) Lookup(chunk string) (string, bool) {
 		return "", false
 	}
 
-	index := results[0]
+	index := min(results[0], len(m.Normalized))
 	index2 := index
 	for index2 < len(m.Normalized) {
 		if []byte(m.Normalized)[index2] == byte(0) {
-- 
2.43.0


From cfe14e81684e9a8f30d374a0ff19124c7b5513f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 09/76] fix: Invert pattern inverts any pattern

---
 normalizer/pattern.go | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..8fd11f6 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,8 @@
 package normalizer
 
 import (
-	"log"
 	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -284,23 +281,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
-
-	return invert(matches)
+	return invert(i.Pattern.FindMatches(inside))
 }
 
 func invert(matches []OffsetsMatch) (retVal []OffsetsMatch) {
-- 
2.43.0


From b9c5880ca28639815d75f66e40d4af8d0ab60116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 10/76] fix: PreTokenizedString.Normalize keeps the splits
 which have tokens already

They were dropped: with a pre-tokenizer which normalizes, e.g. ByteLevel, all the
added tokens found in the text disappeared.
---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From 9362267d17390e847e9109947af1c5d020e93eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 11/76] fix: PreTokenizedString: a split may be tokenized into
 no token at all

Any text with a piece the model has no token for, and no unknown token, failed
to encode.
---
 pretokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 23e33e0..458f3bd 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -124,6 +124,10 @@ func (pt *PreTokenizedString) Tokenize(tokFn func(*normalizer.NormalizedString)
 			if err != nil {
 				return nil, err
 			}
+			if toks == nil {
+				// Tokenized into nothing, which is not the same as not tokenized
+				toks = []Token{}
+			}
 			newSplit.tokens = toks
 		}
 		nSplits = append(nSplits, newSplit)
@@ -147,7 +151,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	}
 
 	for _, s := range pt.splits {
-		if len(s.tokens) == 0 {
+		if s.tokens == nil {
 			err := fmt.Errorf("Split has not been tokenized. Call 'PreTokenizeString.Tokenize()' method first.\n")
 			return nil, err
 		}
-- 
2.43.0


From 648e467a6277fdf8264a605441072825c68ff598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 12/76] fix: character offsets at the end of the text

The last token was one character short with character offsets, and listing the
splits with character offsets always panicked.
---
 pretokenizer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 458f3bd..afb28e3 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	// "reflect"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/normalizer"
 )
@@ -170,6 +171,8 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 			}
 			currRuneIdx += 1
 		}
+		// Offsets may end, and even start, at the very end
+		charMap[len(pt.original)] = currRuneIdx
 	case offsetType == Byte:
 		charMap = make(map[int]int, 0)
 
@@ -318,15 +321,16 @@ type OffsetConverter interface {
 
 type BytesToCharOffsetConverter struct {
 	b2c map[int]int // map of byteIndex to character(rune) index
+
+	endByte int // end of the sequence, in bytes
+	endChar int // end of the sequence, in characters
 }
 
 func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter {
-	chars := []rune(sequence) // utf-8
-
 	b2c := make(map[int]int)
-	n := 0
-	for charIdx, char := range chars {
-		nbytes := len([]byte(string(char)))
+	n, charIdx := 0, 0
+	for ; n < len(sequence); charIdx++ {
+		_, nbytes := utf8.DecodeRuneInString(sequence[n:])
 		for i := 0; i < nbytes; i++ {
 			byteIdx := n + i
 			b2c[byteIdx] = charIdx
@@ -335,18 +339,27 @@ func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter
 		n += nbytes
 	}
 
-	return &BytesToCharOffsetConverter{b2c}
+	return &BytesToCharOffsetConverter{b2c: b2c, endByte: n, endChar: charIdx}
+}
+
+// convert converts one byte index, possibly the one of the very end.
+func (c *BytesToCharOffsetConverter) convert(byteIdx int) (int, bool) {
+	if byteIdx == c.endByte {
+		return c.endChar, true
+	}
+	charIdx, ok := c.b2c[byteIdx]
+	return charIdx, ok
 }
 
 // Convert converts byte-indexed offsets to character-index offsets.
 func (c *BytesToCharOffsetConverter) Convert(offsets []int) ([]int, error) {
-	start, ok := c.b2c[offsets[0]]
+	start, ok := c.convert(offsets[0])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets start %v\n", offsets[0])
 		return nil, err
 	}
 
-	end, ok := c.b2c[offsets[1]]
+	end, ok := c.convert(offsets[1])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets end %v\n", offsets[1])
 		return nil, err
-- 
2.43.0


From 2ad7bcd4c60c0837697eb76372d75e086fd8b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 13/76] fix: AddedVocabulary: find every added token of a text,
 from left to right

The matches were sorted by token rather than by position, so that all the added
tokens following one of a higher index were missed.
---
 added-vocabulary.go | 47 +++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..c892839 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -364,23 +364,6 @@ type idOffsets struct {
 	offsets []int
 }
 
-// helper functions to sort idOffsets
-// By implement sort interface of package sort
-
-// byStart sort by offset.Start
-type byStart []idOffsets
-
-func (s byStart) Len() int           { return len(s) }
-func (s byStart) Less(i, j int) bool { return s[i].offsets[0] < s[j].offsets[0] }
-func (s byStart) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
-
-// byId sort by id
-type byId []idOffsets
-
-func (bi byId) Len() int           { return len(bi) }
-func (bi byId) Less(i, j int) bool { return bi[i].id < bi[j].id }
-func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
-
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
 // This method returns a list "splits", each of them being a pair of Offsets
 // and an optional ID if it is an AddedToken. The list of splits cover the entire input string.
@@ -404,8 +387,12 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	}
 
 	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
-	sort.Sort(byId(ioPairs))
+	sort.Slice(ioPairs, func(i, j int) bool {
+		if ioPairs[i].offsets[0] != ioPairs[j].offsets[0] {
+			return ioPairs[i].offsets[0] < ioPairs[j].offsets[0]
+		}
+		return ioPairs[i].id < ioPairs[j].id
+	})
 
 	// Select the matches, if they overlap, keep them
 	var (
@@ -426,19 +413,17 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// Find out whether having overlapping neighbours.
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		lowestPair := ioPair
+		for _, other := range ioPairs[i+1:] {
+			if other.offsets[0] >= ioPair.offsets[1] {
+				break
+			}
+			if other.id < lowestPair.id {
+				lowestPair = other
+			}
 		}
-
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
+		splits = append(splits, lowestPair)
+		currentOffsets = lowestPair.offsets[1]
 		i++
 	}
 
-- 
2.43.0


From dafe92c086942088297e793689c568560638bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 14/76] fix: AddedToken: normalize the content if and only if
 the token is normalized

Only the content of single word tokens was, even those matched against the raw
text. Also strip all the whitespaces around a token, as documented, not just one.
---
 added-vocabulary.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index c892839..299cde2 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -125,6 +125,8 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	var reStr string // regular expression pattern
 
+	content := at.normalizedContent(n)
+
 	if at.SingleWord {
 		var firstB, lastB string
 		runes := []rune(at.Content)
@@ -141,36 +143,37 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 			lastB = ``
 		}
 
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
-		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
+		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(content), lastB)
 
 	} else {
-		reStr = regexp.QuoteMeta(at.Content)
+		reStr = regexp.QuoteMeta(content)
 	}
 
 	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("(\\s)*%v(\\s)*", reStr)
 	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
+		reStr = fmt.Sprintf("(\\s)*%v", reStr)
 	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("%v(\\s)*", reStr)
 	}
 
 	return reStr
 }
 
+// normalizedContent returns the content to look for in a text: the one of the
+// token, normalized if it should match the normalized text.
+func (at AddedToken) normalizedContent(n normalizer.Normalizer) string {
+	if n == nil || !at.Normalized {
+		return at.Content
+	}
+	normalized, err := n.Normalize(normalizer.NewNormalizedFrom(at.Content))
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return normalized.GetNormalized()
+}
+
 func isWordCharacter(r rune) bool {
 	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
 		return true
@@ -336,6 +339,10 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 			log.Fatalf("Missing additional token.\n")
 		}
 
+		if token.normalizedContent(normalizer) == "" {
+			continue // nothing to look for
+		}
+
 		pattern := token.GetPattern(normalizer)
 		if token.Normalized {
 			normIds = append(normIds, id)
-- 
2.43.0


From 1b9c1212e1a07ba4bb2f510f08df69bfc585c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 15/76] fix: AddedToken: a punctuation is not part of a word

A single word token such as [MASK] was found only in the middle of words.
---
 added-vocabulary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 299cde2..dd9554d 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -175,7 +175,7 @@ func (at AddedToken) normalizedContent(n normalizer.Normalizer) string {
 }
 
 func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
+	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.Is(unicode.Pc, r) || unicode.Is(unicode.Join_Control, r) {
 		return true
 	}
 	return false
-- 
2.43.0


From d93abf3b33c72e9b28516c1c35996ea1695d4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 16/76] fix: Prepend of an empty string keeps the alignments

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 5e961b7..d96bffa 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -700,7 +700,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || s == "" {
 		return n
 	}
 
-- 
2.43.0


From 19cd42e24ffc98e1705f388ebd40a5d1ea3fe411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 17/76] fix: NewNormalizer applies the normalizer it is
 configured with

---
 normalizer/normalizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalizer.go b/normalizer/normalizer.go
index 9438fc8..c91bdd1 100644
--- a/normalizer/normalizer.go
+++ b/normalizer/normalizer.go
@@ -24,7 +24,7 @@ func newNormalizer(opts ...DefaultOption) *normalizer {
 
 func (n *normalizer) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 
-	return normalized, nil
+	return n.Normalizer.Normalize(normalized)
 }
 
 type Option func(*normalizer)
@@ -32,14 +32,14 @@ type Option func(*normalizer)
 // WithBertNormalizer creates normalizer with BERT normalization features.
 func WithBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bool) Option {
 	return func(o *normalizer) {
-		NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
+		o.Normalizer = NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
 	}
 }
 
 // WithUnicodeNormalizer creates normalizer with one of unicode NFD, NFC, NFKD, or NFKC normalization feature.
 func WithUnicodeNormalizer(form norm.Form) Option {
 	return func(o *normalizer) {
-		NewUnicodeNormalizer(form)
+		o.Normalizer = NewUnicodeNormalizer(form)
 	}
 
 }
-- 
2.43.0


From b15f331c0aabb395299ce536d77347dc413f408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 18/76] fix: the table of Chinese characters is sorted, as
 lookups require

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 6621e38..dc8d9da 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From ae112d61d557bc71e0f5249780a1600f14c50f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 19/76] fix: UnicodeScript keeps a leading char which is in no
 script

---
 pretokenizer/unicode-script.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..539e832 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -52,20 +52,20 @@ var _ tokenizer.PreTokenizer = new(UnicodeScript)
 func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
 		lastScript := ""
-		offset := 0
+		hasLast := false // a char of no known script has a script as well
 		var ranges []int
-		for _, c := range normalized.GetNormalized() {
+		for offset, c := range normalized.GetNormalized() {
 			script := FixedScript(c)
 			var result int
-			if script != "Any" && lastScript != "Any" && lastScript != script {
+			if script != "Any" && (!hasLast || lastScript != script) {
 				result = offset
 			} else {
 				result = -1
 			}
 
-			offset += len(string(c))
 			if script != "Any" {
 				lastScript = script
+				hasLast = true
 			}
 
 			if result >= 0 {
-- 
2.43.0


From 0710613d27f9838606c4e6f560b04e6da21dd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 20/76] fix: Metaspace splits on its replacement, which is not
 a regular expression

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From 3e52e13aa80c8783cabffda42ae8437aaf712662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 21/76] fix: ByteLevel decodes a token which is not byte-level
 as itself

---
 pretokenizer/bytelevel.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..23cd244 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -229,14 +229,19 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
+	return strings.Join(bl.DecodeChain(tokens), "")
+}
 
+// decodeToken converts the byte-level characters of a token to bytes. A token with
+// any other character (e.g. an added token) is not a byte-level one: it stands
+// for itself.
+func decodeToken(token string) string {
 	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
+	for _, r := range token {
+		b, ok := CharBytes[string(r)]
+		if !ok {
+			return token
+		}
 		bytes = append(bytes, b)
 	}
 
@@ -246,15 +251,7 @@ func (bl *ByteLevel) Decode(tokens []string) string {
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 	out := make([]string, len(tokens))
 	for i, s := range tokens {
-		chars := strings.Split(s, "")
-		var bytes []byte
-		for _, c := range chars {
-			b := CharBytes[c]
-
-			bytes = append(bytes, b)
-		}
-
-		out[i] = string(bytes)
+		out[i] = decodeToken(s)
 	}
 
 	return out
-- 
2.43.0


From 5eb9fbe6ae4afdbe536364ba5463168841470989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 22/76] fix: GetSplits counts the chars of the normalized text
 in normalized offsets

---
 pretokenizer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index afb28e3..90f53d8 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -269,7 +269,15 @@ func (pt *PreTokenizedString) GetSplits(offsetRef normalizer.IndexOn, offsetType
 
 	var offsetConverter OffsetConverter
 	if offsetType == Char {
-		offsetConverter = NewBytesToCharOffsetConverter(pt.original)
+		// NOTE. offsets are converted within the text they refer to
+		text := pt.original
+		if offsetRef == normalizer.NormalizedTarget {
+			text = ""
+			for _, s := range pt.splits {
+				text += s.normalized.GetNormalized()
+			}
+		}
+		offsetConverter = NewBytesToCharOffsetConverter(text)
 	}
 
 	offset := 0
-- 
2.43.0


From fbaddfa348a520fe484dbbadde8b419cd18fd8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 23/76] fix: Truncate: independent parts, optional words,
 sequence ranges of each part

---
 encoding.go | 110 ++++++++++++++++++++--------------------------------
 util.go     |  22 +++++++++++
 2 files changed, 63 insertions(+), 69 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..0d6107a 100644
--- a/encoding.go
+++ b/encoding.go
@@ -351,60 +351,57 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 		return e, nil
 	}
 
-	// Truncating at maxLen (exclusive) to keep.
-	// The rest (overflowing) from maxLen (inclusive)
-	newIds := e.Ids[0:maxLen]
-	oIds := e.Ids[maxLen:len(e.Ids)] // overflowing
-	newTypeIds := e.TypeIds[0:maxLen]
-	oTypeIds := e.TypeIds[maxLen:len(e.TypeIds)]
-	newTokens := e.Tokens[0:maxLen]
-	oTokens := e.Tokens[maxLen:len(e.Tokens)]
-	newOffsets := e.Offsets[0:maxLen]
-	oOffsets := e.Offsets[maxLen:len(e.Offsets)]
-	newSpeToks := e.SpecialTokenMask[0:maxLen]
-	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
-	newAttent := e.AttentionMask[0:maxLen]
-	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
-	oWords := e.Words[maxLen:len(e.Words)]
-
-	e.Ids = newIds
-	e.TypeIds = newTypeIds
-	e.Tokens = newTokens
-	e.Offsets = newOffsets
-	e.SpecialTokenMask = newSpeToks
-	e.AttentionMask = newAttent
-	e.Words = newWords
-
-	// Separate the overflowing part into as many Encoding as needed
+	// Separate the overflowing part into as many Encoding as needed. Each of them
+	// starts with the last `stride` tokens of the one before.
+	length := len(e.Ids)
 	partSize := maxLen - stride
 	overflowing := make([]Encoding, 0)
-	partId := 0
-	prevEncoding := e
-
-	// while loop
-	for int(partSize)*partId < len(oIds) {
-		o := Encoding{
-			Ids:              getCurrentPart(prevEncoding.Ids, oIds, partSize, partId, stride),
-			TypeIds:          getCurrentPart(prevEncoding.TypeIds, oTypeIds, partSize, partId, stride),
-			Tokens:           getCurrentPart(prevEncoding.Tokens, oTokens, partSize, partId, stride),
-			Offsets:          getCurrentPart(prevEncoding.Offsets, oOffsets, partSize, partId, stride),
-			SpecialTokenMask: getCurrentPart(prevEncoding.SpecialTokenMask, oSpeToks, partSize, partId, stride),
-			AttentionMask:    getCurrentPart(prevEncoding.AttentionMask, oAttent, partSize, partId, stride),
-			Words:            getCurrentPart(prevEncoding.Words, oWords, partSize, partId, stride),
-			Overflowing:      make([]Encoding, 0),
+	for start := partSize; start+stride < length; start += partSize {
+		end := start + maxLen
+		if end > length {
+			end = length
 		}
-
-		partId += 1
-		overflowing = append(overflowing, o)
-		prevEncoding = &overflowing[len(overflowing)-1]
+		overflowing = append(overflowing, *e.window(start, end))
 	}
 
+	*e = *e.window(0, maxLen)
 	e.Overflowing = overflowing
 
 	return e, nil
 }
 
+// window copies the tokens in `[start, end)` to a new Encoding, without overflowing.
+func (e *Encoding) window(start, end int) *Encoding {
+	var ranges map[int]Range
+	if e.SequenceRanges != nil {
+		ranges = make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r.slice(start, end)
+		}
+	}
+
+	return &Encoding{
+		Ids:              slicePart(e.Ids, start, end),
+		TypeIds:          slicePart(e.TypeIds, start, end),
+		Tokens:           slicePart(e.Tokens, start, end),
+		Offsets:          slicePart(e.Offsets, start, end),
+		SpecialTokenMask: slicePart(e.SpecialTokenMask, start, end),
+		AttentionMask:    slicePart(e.AttentionMask, start, end),
+		Overflowing:      make([]Encoding, 0),
+		Words:            slicePart(e.Words, start, end),
+		SequenceRanges:   ranges,
+	}
+}
+
+// slicePart copies the items in `[start, end)`. It returns nil if there is no item at all.
+func slicePart[T any](items []T, start, end int) []T {
+	if len(items) == 0 {
+		return nil
+	}
+
+	return append(make([]T, 0, end-start), items[start:end]...)
+}
+
 // Merge merges all Encodings together
 func (e *Encoding) Merge(encodings []Encoding, growingOffsets bool) (retVal *Encoding) {
 	retVal = e
@@ -667,28 +664,3 @@ func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
 
 	return r[0:e.Len()], nil
 }
-
-func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-	if size <= 0 || idx < 0 || stride < 0 {
-		return nil
-	}
-
-	if len(previous) < stride {
-		stride = len(previous)
-	}
-
-	start := idx * size
-	if start >= len(current) {
-		return previous[len(previous)-stride:]
-	}
-
-	end := (idx + 1) * size
-	if end > len(current) {
-		end = len(current)
-	}
-
-	curr := current[start:end]
-	prev := previous[len(previous)-stride:]
-
-	return append(prev, curr...)
-}
diff --git a/util.go b/util.go
index 1e5d49c..db2059d 100644
--- a/util.go
+++ b/util.go
@@ -218,4 +218,26 @@ func (r Range) IsEmpty() bool {
 	return len(r) == 0
 }
 
+// slice returns the part of the range in `[start, end)`, relative to `start`.
+func (r Range) slice(start, end int) Range {
+	var out Range
+	for _, v := range r {
+		if v >= start && v < end {
+			out = append(out, v-start)
+		}
+	}
+
+	return out
+}
+
+// shift moves the range by `n`.
+func (r Range) shift(n int) Range {
+	out := make(Range, len(r))
+	for i, v := range r {
+		out[i] = v + n
+	}
+
+	return out
+}
+
 // TODO. more methods of Range
-- 
2.43.0


From 39bf840b3707eb513edfb6d0a088fcf960837357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 24/76] fix: Pad: left padding, overflowing parts, optional
 words and sequence ranges

---
 encoding.go | 87 +++++++++++++++++------------------------------------
 1 file changed, 28 insertions(+), 59 deletions(-)

diff --git a/encoding.go b/encoding.go
index 0d6107a..099c717 100644
--- a/encoding.go
+++ b/encoding.go
@@ -551,8 +551,8 @@ func mergeEncoding(en1, en2 Encoding, growingOffsets bool) Encoding {
 func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	// 1. Overflowing
 	var overflowing []Encoding
-	for _, o := range e.Overflowing {
-		padded := o.pad(targetLength, padId, padTypeId, padToken, direction)
+	for i := range e.Overflowing {
+		padded := e.Overflowing[i].Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
@@ -570,70 +570,39 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
 
-	switch direction {
-	case Left:
-		newIds := make([]int, padLength)
-		for i := 0; i < len(newIds); i++ {
-			newIds[i] = padId
-		}
-		newIds = append(newIds, e.Ids...)
-		e.Ids = newIds
-
-		newTypeIds := make([]int, padLength)
-		for i := 0; i < len(newTypeIds); i++ {
-			newTypeIds[i] = padTypeId
-		}
-		newTypeIds = append(newTypeIds, e.Ids...)
-		e.TypeIds = newTypeIds
-
-		newTokens := make([]string, padLength)
-		for i := 0; i < len(newTokens); i++ {
-			newTokens[i] = padToken
-		}
-		newTokens = append(newTokens, e.Tokens...)
-		e.Tokens = newTokens
+	offsets := make([][]int, padLength)
+	for i := range offsets {
+		offsets[i] = []int{0, 0}
+	}
 
-		newSpecialTokenMask := make([]int, padLength)
-		for i := 0; i < len(newSpecialTokenMask); i++ {
-			newSpecialTokenMask[i] = 1
-		}
-		newSpecialTokenMask = append(newSpecialTokenMask, e.SpecialTokenMask...)
-		e.SpecialTokenMask = newSpecialTokenMask
+	// words are optional
+	if len(e.Words) > 0 || len(e.Ids) == 0 {
+		e.Words = addPadding(e.Words, util.Repeat(-1, padLength), direction)
+	}
+	e.Ids = addPadding(e.Ids, util.Repeat(padId, padLength), direction)
+	e.TypeIds = addPadding(e.TypeIds, util.Repeat(padTypeId, padLength), direction)
+	e.Tokens = addPadding(e.Tokens, util.Repeat(padToken, padLength), direction)
+	e.SpecialTokenMask = addPadding(e.SpecialTokenMask, util.Repeat(1, padLength), direction)
+	e.AttentionMask = addPadding(e.AttentionMask, util.Repeat(0, padLength), direction)
+	e.Offsets = addPadding(e.Offsets, offsets, direction)
 
-		newAttentionMask := make([]int, padLength)
-		for i := 0; i < len(newAttentionMask); i++ {
-			newAttentionMask[i] = 0
+	if direction == Left && e.SequenceRanges != nil {
+		ranges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r.shift(padLength)
 		}
-		newAttentionMask = append(newAttentionMask, e.AttentionMask...)
-		e.AttentionMask = newAttentionMask
+		e.SequenceRanges = ranges
+	}
 
-		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
-			newOffsets[i] = []int{0, 0}
-		}
-		newOffsets = append(newOffsets, e.Offsets...)
-		e.Offsets = newOffsets
+	return e
+}
 
-		newWords := make([]int, padLength)
-		for i := 0; i < len(newWords); i++ {
-			newWords[i] = -1
-		}
-		newWords = append(newWords, e.Words...)
-		e.Words = newWords
-
-	case Right:
-		for i := 0; i < padLength; i++ {
-			e.Ids = append(e.Ids, padId)
-			e.TypeIds = append(e.TypeIds, padTypeId)
-			e.Tokens = append(e.Tokens, padToken)
-			e.SpecialTokenMask = append(e.SpecialTokenMask, 1)
-			e.AttentionMask = append(e.AttentionMask, 0)
-			e.Offsets = append(e.Offsets, []int{0, 0})
-			e.Words = append(e.Words, -1)
-		}
+func addPadding[T any](items, padding []T, direction PaddingDirection) []T {
+	if direction == Left {
+		return util.Merge(padding, items)
 	}
 
-	return e
+	return util.Merge(items, padding)
 }
 
 // Token2Sequence returns the index of the sequence containing the given token.
-- 
2.43.0


From f051fdeeae241a58cfd8d4d0d5db0c35379866b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 25/76] fix: MergeWith: sequence ranges, words of encodings
 without words, own offsets

---
 encoding.go | 79 ++++++++++++-----------------------------------------
 1 file changed, 18 insertions(+), 61 deletions(-)

diff --git a/encoding.go b/encoding.go
index 099c717..449ac7b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -2,7 +2,6 @@ package tokenizer
 
 import (
 	"fmt"
-	"log"
 
 	"github.com/sugarme/tokenizer/util"
 )
@@ -452,26 +451,30 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	// Merging others
 	originalLen := e.Len()
 	if len(pair.SequenceRanges) > 0 {
+		ranges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r
+		}
 		for seqId, r := range pair.SequenceRanges {
-			start := originalLen + r[0]
-			end := originalLen + r[r.Len()-1] + 1
-			newRange := NewRange(start, end)
-			var oldRange Range
-			util.DeepCopy(e.SequenceRanges[seqId], oldRange)
-			e.SequenceRanges[seqId] = util.Merge(oldRange, newRange)
+			ranges[seqId] = util.Merge(ranges[seqId], r.shift(originalLen))
 		}
+		e.SequenceRanges = ranges
+	}
+
+	// words are optional
+	if len(e.Words) > 0 || len(pair.Words) > 0 {
+		e.Words = util.Merge(e.wordsOrNone(), pair.wordsOrNone())
 	}
 
 	e.Ids = util.Merge(e.Ids, pair.Ids)
 	e.Tokens = util.Merge(e.Tokens, pair.Tokens)
-	e.Words = util.Merge(e.Words, pair.Words)
 	e.TypeIds = util.Merge(e.TypeIds, pair.TypeIds)
 	e.SpecialTokenMask = util.Merge(e.SpecialTokenMask, pair.SpecialTokenMask)
 	e.AttentionMask = util.Merge(e.AttentionMask, pair.AttentionMask)
 
 	// Offsets
 	var startingOffset int = 0
-	offsets := e.Offsets
+	offsets := util.Merge(e.Offsets, nil)
 	if growingOffsets {
 		if len(offsets) > 0 {
 			last := offsets[len(offsets)-1]
@@ -491,60 +494,14 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	return e
 }
 
-// mergeEncoding merges 2 encodings those have `Overflowing` field empty.
-// Otherwise, it will be panic.
-func mergeEncoding(en1, en2 Encoding, growingOffsets bool) Encoding {
-	if len(en1.Overflowing) > 0 || len(en2.Overflowing) > 0 {
-		log.Fatalf("Invalid input encodings. Input encodings must have 'Overflowing' field empty.\n")
-	}
-
-	var merge Encoding
-	merge.Overflowing = []Encoding{}
-	merge.Ids = util.Merge(en1.Ids, en2.Ids)
-	merge.TypeIds = util.Merge(en1.TypeIds, en2.TypeIds)
-	merge.Words = util.Merge(en1.Words, en2.Words)
-	merge.Tokens = util.Merge(en1.Tokens, en2.Tokens)
-	merge.SpecialTokenMask = util.Merge(en1.SpecialTokenMask, en2.SpecialTokenMask)
-	merge.AttentionMask = util.Merge(en1.AttentionMask, en2.AttentionMask)
-
-	// sequence range
-	merge.SequenceRanges = make(map[int]Range)
-	sequenceRanges := make(map[int]Range)
-	originalLen := en1.Len()
-	if len(en2.SequenceRanges) > 0 {
-		for seqId, r := range en2.SequenceRanges {
-			start := originalLen + r[0]
-			end := originalLen + r[r.Len()-1] + 1
-			newRange := NewRange(start, end)
-			oldRange := en1.SequenceRanges[seqId]
-			sequenceRanges[seqId] = append(oldRange, newRange...)
-		}
-	} else {
-		sequenceRanges = en1.SequenceRanges
-	}
-
-	merge.SequenceRanges = sequenceRanges
-
-	// Offsets
-	offsets := en1.Offsets
-	var startingOffset int = 0
-	if growingOffsets {
-		if len(offsets) > 0 {
-			last := offsets[len(offsets)-1]
-			startingOffset = last[1]
-		}
-	}
-
-	for _, o := range en2.Offsets {
-		adjustedO := []int{
-			o[0] + startingOffset,
-			o[1] + startingOffset,
-		}
-		offsets = append(offsets, adjustedO)
+// wordsOrNone returns the word of each token, which is -1 for those without a word.
+func (e *Encoding) wordsOrNone() []int {
+	words := util.Merge(e.Words, nil)
+	for len(words) < e.Len() {
+		words = append(words, -1)
 	}
-	merge.Offsets = offsets
 
-	return merge
+	return words
 }
 
 // Pad pads current encoding with given length, values to either Left or Right direction
-- 
2.43.0


From b3e8f0ffb5b619702cc1b90cac00b2fa6c65d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 26/76] fix: Encoding: lookups of words, tokens and sequences
 by index

---
 encoding.go | 73 ++++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/encoding.go b/encoding.go
index 449ac7b..56688c2 100644
--- a/encoding.go
+++ b/encoding.go
@@ -189,20 +189,10 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
-	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
+	for seqId, r := range e.SequenceRanges {
+		for _, i := range r {
+			sequences[i] = seqId
 		}
-		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
 	}
 
 	return sequences
@@ -262,45 +252,45 @@ func (e *Encoding) TakeOverflowing() []Encoding {
 // if `none` result, `ok` will be false.
 func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 
-	var start, end int = -1, -1
-
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
-		}
+	if word < 0 {
+		return startTok, endTok, false
 	}
-	for i, w := range inRangeWords {
-		if w == word && start < 0 {
-			start = i
+
+	for i, w := range e.Words {
+		if w != word {
+			continue
 		}
-	}
 
-	end = len(inRangeWords)
+		// All the following tokens of the same word, in the same sequence
+		seqId, _ := e.Token2Sequence(i)
+		for endTok = i + 1; endTok < len(e.Words) && e.Words[endTok] == word; endTok++ {
+			if otherId, _ := e.Token2Sequence(endTok); otherId != seqId {
+				break
+			}
+		}
 
-	if start != -1 && end != -1 {
-		return start, end, true
-	} else {
-		return startTok, endTok, false
+		return i, endTok, true
 	}
+
+	return startTok, endTok, false
 }
 
 // Word2Chars get the offsets of the word at a given index in
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
-	} else {
-		oStart := e.Offsets[start][0]
-		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
 	}
+
+	oStart := e.Offsets[start][0]
+	oEnd := e.Offsets[end-1][1]
+	return []int{oStart, oEnd}, true
 }
 
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -564,7 +554,7 @@ func addPadding[T any](items, padding []T, direction PaddingDirection) []T {
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
@@ -582,11 +572,20 @@ func (e *Encoding) Token2Sequence(token int) (int, bool) {
 // SequenceRange returns the range to target to retrieve something (word id, offsets, ...)
 // related to the given sequence id.
 func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
+	if len(e.SequenceRanges) == 0 && sequencId == 0 {
+		// only one sequence, which covers the entire range
+		var whole Range
+		for i := 0; i < e.Len(); i++ {
+			whole = append(whole, i)
+		}
+		return whole, nil
+	}
+
 	r, ok := e.SequenceRanges[sequencId]
 	if !ok {
 		err := fmt.Errorf("input 'sequence_id' is out of range.\n")
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return r, nil
 }
-- 
2.43.0


From 9d55ba3ff4d53cdf519bdefba593f06bd1a51072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 27/76] fix: truncation respects the max length with every
 strategy, its errors are returned by Encode

---
 tokenizer.go | 49 +++++++++++++++++++--------------
 util.go      | 77 +++++++++++++++++++++++++++++++++-------------------
 2 files changed, 78 insertions(+), 48 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..3fec434 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -474,7 +474,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -508,7 +508,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -586,12 +586,17 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
-	var tEncoding, tPairEncoding *Encoding
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		log.Fatal(err)
+	}
 
+	return retVal
+}
+
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (*Encoding, error) {
 	// 1. Truncate if needed
-	if t.trunc == nil {
-		tEncoding, tPairEncoding = encoding, pairEncoding
-	} else {
+	if t.trunc != nil && t.trunc.MaxLength > 0 {
 		trunc := t.trunc
 		var nAddedTokens int = 0 // number of AddedToken
 		if t.postProcessor != nil {
@@ -599,16 +604,20 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 			nAddedTokens = processor.AddedTokens(pairEncoding != nil)
 		}
 
+		maxLength := trunc.MaxLength
 		if addSpecialTokens && nAddedTokens > 0 {
-			maxLength := trunc.MaxLength - nAddedTokens
-			params := &TruncationParams{
-				MaxLength: maxLength,
-				Strategy:  trunc.Strategy,
-				Stride:    trunc.Stride,
-			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
-		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			maxLength -= nAddedTokens
+		}
+		if maxLength < 0 {
+			maxLength = 0
+		}
+		params := &TruncationParams{
+			MaxLength: maxLength,
+			Strategy:  trunc.Strategy,
+			Stride:    trunc.Stride,
+		}
+		if err := truncateEncodings(encoding, pairEncoding, params); err != nil {
+			return nil, err
 		}
 	}
 
@@ -616,23 +625,23 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 	var finalEncoding *Encoding
 	if t.postProcessor != nil {
 		processor := t.postProcessor
-		finalEncoding = processor.Process(tEncoding, tPairEncoding, addSpecialTokens)
+		finalEncoding = processor.Process(encoding, pairEncoding, addSpecialTokens)
 	} else {
-		finalEncoding = DefaultProcess(tEncoding, tPairEncoding, addSpecialTokens)
+		finalEncoding = DefaultProcess(encoding, pairEncoding, addSpecialTokens)
 	}
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index db2059d..e2cb660 100644
--- a/util.go
+++ b/util.go
@@ -81,23 +81,32 @@ const (
 )
 
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	if params.MaxLength == 0 {
+		return encoding, pairEncoding
+	}
+
+	if err := truncateEncodings(encoding, pairEncoding, params); err != nil {
+		log.Fatal(err)
+	}
+
+	return encoding, pairEncoding
+}
+
+// truncateEncodings truncates the encodings in place, so that there are `MaxLength`
+// tokens at most.
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) error {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
-	if params.MaxLength == 0 {
-		return encoding, pairEncoding
-	}
-
 	totalLength = len(encoding.GetIds())
 	if pairEncoding != nil {
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
-		return encoding, pairEncoding
+	if totalLength <= params.MaxLength {
+		return nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -113,42 +122,54 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
-		encoding.Truncate(nFirst, params.Stride)
+		if err := encoding.truncateTo(nFirst, params.Stride); err != nil {
+			return err
+		}
 		if pairEncoding != nil {
-			pairEncoding.Truncate(nSecond, params.Stride)
+			return pairEncoding.truncateTo(nSecond, params.Stride)
 		}
 
 	case OnlyFirst, OnlySecond:
-		var truncateFunc = func(target *Encoding) (*Encoding, error) {
-			targetLength := len(target.GetIds())
-			if targetLength > toRemove {
-				target.Truncate(targetLength-toRemove, params.Stride)
-				return target, nil
-			} else {
-				err := errors.New(SequenceTooShort)
-				return nil, err
-			}
+		target := encoding
+		if params.Strategy == OnlySecond {
+			target = pairEncoding
+		}
+		if target == nil {
+			return errors.New(SecondSequenceNotProvided)
 		}
 
-		if params.Strategy == OnlyFirst {
-			encoding, err = truncateFunc(encoding)
-		} else if pairEncoding != nil {
-			pairEncoding, err = truncateFunc(pairEncoding)
-		} else {
-			err = errors.New(SecondSequenceNotProvided)
+		targetLength := len(target.GetIds())
+		if targetLength < toRemove || (targetLength == toRemove && params.MaxLength > 0) {
+			return errors.New(SequenceTooShort)
 		}
 
+		return target.truncateTo(targetLength-toRemove, params.Stride)
 	}
 
-	if err != nil {
-		log.Fatal(err)
+	return nil
+}
+
+// truncateTo keeps `length` tokens. When there is none to keep, they all go to an
+// overflowing encoding.
+func (e *Encoding) truncateTo(length, stride int) error {
+	if length >= e.Len() {
+		return nil
 	}
 
-	return encoding, pairEncoding
+	if length == 0 {
+		all := e.window(0, e.Len())
+		*e = *e.window(0, 0)
+		e.Overflowing = []Encoding{*all}
+		return nil
+	}
+
+	_, err := e.Truncate(length, stride)
+	return err
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From df4910219bcc58540584d2e1459435cb1fd65c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 28/76] fix: sequence ids of a pair without special tokens, a
 Sequence of processors merges the pair once

---
 encoding.go           | 10 ++++++----
 processor/sequence.go | 28 +++++++++++++++++++++++-----
 tokenizer.go          |  6 +-----
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/encoding.go b/encoding.go
index 56688c2..113f4f8 100644
--- a/encoding.go
+++ b/encoding.go
@@ -179,11 +179,13 @@ func (e *Encoding) SetWord(index int, val int) {
 // SetSequenceIds set the given sequence id for the whole range of tokens contained in this Encoding
 func (e *Encoding) SetSequenceIds(sequenceId int) {
 	if e.Len() > 0 {
-		if e.SequenceRanges == nil {
-			e.SequenceRanges = make(map[int]Range)
+		// A copy of this encoding keeps its own ranges
+		ranges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r
 		}
-
-		e.SequenceRanges[sequenceId] = NewRange(0, e.Len())
+		ranges[sequenceId] = NewRange(0, e.Len())
+		e.SequenceRanges = ranges
 	}
 }
 
diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..4cfc2cf 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -24,11 +24,29 @@ func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 }
 
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
-	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
-	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
-		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+	if len(seq.processors) == 0 {
+		return tokenizer.DefaultProcess(encoding, pairEncoding, addSpecialTokens)
+	}
+
+	for i, p := range seq.processors {
+		isLast := i == len(seq.processors)-1
+		if pairEncoding != nil && !isLast && p.AddedTokens(true) == 0 {
+			// Nothing to add around the sequences: keep them apart for the next one.
+			typeIds := pairEncoding.GetTypeIds()
+			encoding = p.Process(encoding, nil, addSpecialTokens)
+			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+			pairEncoding.SetTypeIds(typeIds)
+			pairEncoding.SequenceRanges = nil
+			for i := range pairEncoding.Overflowing {
+				pairEncoding.Overflowing[i].SequenceRanges = nil
+			}
+			continue
+		}
+
+		// The pair is merged once
+		encoding = p.Process(encoding, pairEncoding, addSpecialTokens)
+		pairEncoding = nil
 	}
 
-	return encodings
+	return encoding
 }
diff --git a/tokenizer.go b/tokenizer.go
index 3fec434..0e487ca 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -79,11 +79,7 @@ func DefaultProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) *En
 		return encoding
 	}
 
-	if pairEncoding != nil {
-		return encoding.MergeWith(pairEncoding, false)
-	}
-
-	return encoding
+	return MergeEncodings(PrepareEncodings(encoding, pairEncoding), false)
 }
 
 // PrepareEncodings prepares encoding and pairEncoding if any before `ProcessEncodings` call.
-- 
2.43.0


From 3fd599b1c336711b9e7a95249e4b7fe6140cc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 29/76] fix: Bert and Roberta processors: sequence ranges,
 optional words, offsets left as they are

---
 processor/bert.go    | 29 +++++++++++++++++++++++++----
 processor/roberta.go |  9 +++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/processor/bert.go b/processor/bert.go
index 2055035..27a6d2c 100644
--- a/processor/bert.go
+++ b/processor/bert.go
@@ -2,6 +2,7 @@ package processor
 
 import (
 	"github.com/sugarme/tokenizer"
+	"github.com/sugarme/tokenizer/util"
 )
 
 type PostToken struct {
@@ -69,6 +70,26 @@ func (bp *BertProcessing) Process(encoding, pairEncoding *tokenizer.Encoding, ad
 	return newEncoding
 }
 
+// wordsOf returns the word of each token, which is -1 for those without a word.
+func wordsOf(encoding *tokenizer.Encoding) []int {
+	if words := encoding.GetWords(); len(words) > 0 {
+		return words
+	}
+
+	return util.Repeat(-1, encoding.Len())
+}
+
+// sequenceRange says where the tokens of a sequence are, once `start` special tokens
+// are added before them.
+func sequenceRange(sequenceId, start int, encoding *tokenizer.Encoding) tokenizer.EncodingOpt {
+	ranges := make(map[int]tokenizer.Range)
+	if encoding.Len() > 0 {
+		ranges[sequenceId] = tokenizer.NewRange(start, start+encoding.Len())
+	}
+
+	return tokenizer.WithSequenceRangeEncodingOpt(ranges)
+}
+
 // addSpecialToken adds special token "[CLS]" and "[SEP]" to input encoding. It ignores
 // `Overflowing` field.
 func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokenizer.Encoding {
@@ -89,7 +110,7 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.GetWords()...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -112,7 +133,7 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 	}
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRange(0, 1, encoding))
 }
 
 // pairAddSpecialToken adds special token "[SEP]" to input encoding. It ignores
@@ -131,7 +152,7 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 	pairTokens = append(pairTokens, bp.sep.Value)
 
 	var pairWords []int
-	pairWords = append(pairWords, pairEncoding.GetWords()...)
+	pairWords = append(pairWords, wordsOf(pairEncoding)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -152,5 +173,5 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
 
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRange(1, 0, pairEncoding))
 }
diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..c85fa0d 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -67,6 +67,7 @@ func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding,
 		newPairEncoding         *tokenizer.Encoding
 		newOverflowPairEncoding []tokenizer.Encoding
 	)
+	newEncoding, newPairEncoding = encoding, pairEncoding
 	if rp.trimOffsets {
 		newEncoding = pretokenizer.ProcessOffsets(encoding, rp.addPrefixSpace)
 
@@ -145,7 +146,7 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.Words...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -168,7 +169,7 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 	attentionMask = append(attentionMask, 1)
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRange(0, 1, encoding))
 }
 
 // addSpecialToken adds special tokens to input pair encoding. It ignores the `Overflowing` field
@@ -193,7 +194,7 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 
 	var pairWords []int
 	pairWords = append(pairWords, -1)
-	pairWords = append(pairWords, pair.Words...)
+	pairWords = append(pairWords, wordsOf(pair)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -216,7 +217,7 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRange(1, 1, pair))
 }
 
 // TODO: implement Serialize interface for RobertaProcessing
-- 
2.43.0


From 4fb396199f90252e1e0397542887f63b9ca311d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 30/76] fix: TemplateProcessing: validate templates with
 special tokens, the default pair has both sequences

---
 processor/template.go | 49 ++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index a94e1f7..9891e25 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -1,6 +1,7 @@
 package processor
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"strconv"
@@ -410,11 +411,16 @@ func (b *TemplateProcessingBuilder) Validate() error {
 	)
 
 	for _, piece := range b.Pair {
-		if piece.(*SequencePiece).Id == A {
+		sp, ok := piece.(*SequencePiece)
+		if !ok {
+			continue
+		}
+
+		if sp.Id == A {
 			hasA = true
 		}
 
-		if piece.(*SequencePiece).Id == B {
+		if sp.Id == B {
 			hasB = true
 		}
 	}
@@ -426,34 +432,12 @@ func (b *TemplateProcessingBuilder) Validate() error {
 		return err
 	}
 
-	check := func(sp string) string {
-		var exist bool
-		tok, ok := b.SpecialTokens.GetItemByOrder(0)
-		if !ok {
-			exist = false
-		} else {
-			exist = util.Contains(tok.Tokens, sp)
-		}
-
-		if exist {
-			return sp
-		} else {
-			return ""
-		}
-	}
-
 	var missing []string
-	var pieces []Piece = append(b.Single, b.Pair...)
+	var pieces []Piece = util.Merge(b.Single, b.Pair)
 	for _, p := range pieces {
-		typ := getType(p)
-		switch typ {
-		case "*SequencePeice":
-			// None
-		case "*SpecialToken":
-			id := p.(*SpecialTokenPiece).Id
-			s := check(id)
-			if s != "" {
-				missing = append(missing, s)
+		if spt, isSpecial := p.(*SpecialTokenPiece); isSpecial {
+			if _, ok := b.SpecialTokens.GetItemByKey(spt.Id); !ok {
+				missing = append(missing, spt.Id)
 			}
 		}
 	}
@@ -462,10 +446,13 @@ func (b *TemplateProcessingBuilder) Validate() error {
 		var msg string
 		for _, s := range missing {
 			v := fmt.Sprintf("Missing SpecialToken %q", s)
-			msg = fmt.Sprintf("%s, %s", msg, v)
+			if msg != "" {
+				msg += ", "
+			}
+			msg += v
 		}
 
-		return fmt.Errorf(msg)
+		return errors.New(msg)
 	}
 
 	return nil
@@ -477,7 +464,7 @@ func DefaultTemplateProcessing() *TemplateProcessing {
 		panic(err)
 	}
 
-	pair, err := NewTemplateFromOne("$1")
+	pair, err := NewTemplateFromOne("$A:0 $B:1")
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 81aecd67023e3bf0b32564960cc07d9d5b5ed5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 31/76] fix: GetVocab leaves the model as it is, DecodeBatch
 keeps the order of its input

---
 tokenizer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0e487ca..22225e7 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -338,7 +338,11 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	// A copy, as the vocabulary of the model may be the one it uses
+	finalVocab := make(map[string]int)
+	for k, v := range t.model.GetVocab() {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
 		addedVocab := t.addedVocabulary.GetVocab()
 		if len(addedVocab) > 0 {
@@ -677,7 +681,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -687,8 +691,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From f78e2dee7a107a0653d71482b2e5f3e354e34636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 32/76] fix: Pad leaves the overflowing parts of a copy as they
 are

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 113f4f8..0b7529a 100644
--- a/encoding.go
+++ b/encoding.go
@@ -500,8 +500,8 @@ func (e *Encoding) wordsOrNone() []int {
 func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	// 1. Overflowing
 	var overflowing []Encoding
-	for i := range e.Overflowing {
-		padded := e.Overflowing[i].Pad(targetLength, padId, padTypeId, padToken, direction)
+	for _, o := range e.Overflowing {
+		padded := o.Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
-- 
2.43.0


From 07d163b2b7a6db04bd13178b01e4f0a87414942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 33/76] fix: BPE merges equal pairs from left to right

---
 model/bpe/word.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..ad07893 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -261,16 +261,13 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 	}
 
 	// countComaparator return the `smaller` rank value
-	// if both ranks are equal, then return one with smaller timestamp
+	// if both ranks are equal, then return the leftmost one
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(Merge).Rank
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
-			aTime := a.(Merge).Time
-			bTime := b.(Merge).Time
-
-			return utils.TimeComparator(aTime, bTime)
+			return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
 		}
 
 		return utils.IntComparator(c1, c2)
-- 
2.43.0


From bc684e07908a55c90a2a2193ba682a03fdd0fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 34/76] fix: BPE dropout ends: a skipped merge is put back once

---
 model/bpe/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index ad07893..c2c9c46 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From 9705a8292a80bdd026bd9751bba583c2f4e48f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 35/76] fix: merging a pair in a word reports the changed pairs
 at its start too

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index c2c9c46..ff35d17 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -321,6 +321,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 2dc20c151dfb520e3f66cdfcb1da6db45a98235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 36/76] fix: BPE without cache, unknown chars are an error of
 Tokenize

---
 model/bpe/bpe.go | 59 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..b8bd1f9 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -357,7 +357,15 @@ func (b *BPE) GetContinuingSubwordPrfix() *string {
 
 // MergeWord merges given word
 func (b *BPE) MergeWord(w string) *Word {
+	word, err := b.mergeWord(w)
+	if err != nil {
+		panic(err)
+	}
 
+	return word
+}
+
+func (b *BPE) mergeWord(w string) (*Word, error) {
 	word := NewWord()
 	var (
 		prefix, suffix string
@@ -401,12 +409,14 @@ func (b *BPE) MergeWord(w string) *Word {
 		} else { // not found, add `unk`
 			if b.UnkToken != nil {
 				// get `unk` id
-				unkId := (*b.Vocab)[*b.UnkToken]
+				unkId, ok := (*b.Vocab)[*b.UnkToken]
+				if !ok {
+					return nil, fmt.Errorf("the `unk` token %q is not in the vocab", *b.UnkToken)
+				}
 				// add `unk`
 				word.Add(unkId, byteLen)
 			} else {
-				fmt.Printf("cannot find '%s' in the vocab. \n", s)
-				panic("Can't find `unk` token in the vocab. Have you added one when initiating the model?")
+				return nil, fmt.Errorf("cannot find '%s' in the vocab, and there is no `unk` token. Have you added one when initiating the model?", s)
 			}
 		}
 	}
@@ -417,7 +427,7 @@ func (b *BPE) MergeWord(w string) *Word {
 		word.MergeAll(*b.Merges)
 	}
 
-	return word
+	return word, nil
 }
 
 // WordToTokens slices word to tokens
@@ -468,28 +478,45 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 	}
 
 	if b.Dropout == nil {
-		return b.TokenizeWithCache(sequence), nil
+		return b.tokenizeWithCache(sequence)
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 
 	return b.WordToTokens(*word), nil
 }
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
-	if hit, ok := b.Cache.Get(sequence); ok {
-		return b.WordToTokens(hit)
-	} else {
-		word := b.MergeWord(sequence)
-		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
+	retVal, err := b.tokenizeWithCache(sequence)
+	if err != nil {
+		panic(err)
+	}
+
+	return retVal
+}
+
+func (b BPE) tokenizeWithCache(sequence string) ([]tokenizer.Token, error) {
+	if b.Cache != nil {
+		if hit, ok := b.Cache.Get(sequence); ok {
+			return b.WordToTokens(hit), nil
 		}
-		return retVal
 	}
+
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
+	if b.Cache != nil {
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
+	}
+
+	return b.WordToTokens(*word), nil
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From 88a1e90c6cd2da14865c59bbafb5c3191807e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 37/76] fix: BPE continuing subword prefix and end of word
 suffix, offsets of invalid UTF-8, version line of merges

---
 model/bpe/bpe.go | 59 +++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index b8bd1f9..aa319c4 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -8,12 +8,12 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"regexp"
 	"sort"
 
 	// "strconv"
 	"log"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -126,6 +126,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -277,8 +278,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 		line := s.Text()
 
 		// Skip line with `#version`
-		re := regexp.MustCompile(`#version`)
-		if re.MatchString(line) {
+		if strings.HasPrefix(line, "#version") {
 			continue
 		}
 
@@ -295,16 +295,15 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 			// return nil, nil, err
 		}
 
-		b, ok := vocab[parts[1]]
+		second, ok := vocab[parts[1]]
 		if !ok {
 			// err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
 			continue
 			// return nil, nil, err
 		}
 
-		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		pair := Pair{a, second}
+		newToken := mergedToken(parts[0], parts[1], b.ContinuingSubwordPrefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -383,24 +382,19 @@ func (b *BPE) mergeWord(w string) (*Word, error) {
 		suffix = ""
 	}
 
-	chars := []rune(w)
-	currRuneIdx := 0
 	for byteIdx, r := range w {
-		var (
-			s       string
-			byteLen int
-		)
-		byteLen = len(string(r))
-
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		// a byte which is not valid UTF-8 is one byte long
+		_, byteLen := utf8.DecodeRuneInString(w[byteIdx:])
+
+		s := string(r)
+		// the prefix is for a subword which exists behind another one
+		if byteIdx > 0 {
+			s = prefix + s
+		}
+		// last rune, add suffix
+		if byteIdx+byteLen == len(w) {
+			s = s + suffix
 		}
-		currRuneIdx++
 
 		// If `s` exists in vocab, add its id, otherwise add id of `unk`
 		vocab := *b.Vocab
@@ -627,7 +621,21 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
+// mergedToken is the token which two tokens are merged into. The prefix, if any, is the
+// one of the tokens which exist behind another one only.
+func mergedToken(a, b string, prefix *string) string {
+	if prefix != nil {
+		b = strings.TrimPrefix(b, *prefix)
+	}
+
+	return a + b
+}
+
 func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+	return createMerges(vocab, mergesData, nil)
+}
+
+func createMerges(vocab map[string]int, mergesData []string, prefix *string) (*Merges, error) {
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
@@ -654,8 +662,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 		}
 
 		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -682,7 +689,7 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	merges, err := createMerges(vocab, mergesData, continuingSubwordPrefix)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d3a59a88dc85f943dc1d979fe6629e911c2dcce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 38/76] fix: BPE training: special tokens are in the
 vocabulary, the limited alphabet keeps the most frequent chars

---
 model/bpe/trainer.go | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..47e8ae6 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,34 +187,27 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+
+	return id2w
 }
 
 // computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+// and adds it to the vocabulary.
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -244,7 +237,6 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]in
 	// compute the number of chars to remove from the alphabet
 	// if `limitAlphabet` < `len(initialAlphabet)` some of these
 	// initial characters will be removed.
-	// TODO: how we sort these characters before cutting off?
 	var toRemove int = 0
 	var limit int
 	if bt.LimitAlphabet != nil {
@@ -257,13 +249,12 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]in
 	// remove the unwanted `chars`
 	if toRemove > 0 {
 		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
-		sort.Slice(kept, func(i, j int) bool {
-			return kept[i].Char < kept[j].Char
+		// 1. Sort `kept` by frequency, the least frequent first
+		sort.SliceStable(kept, func(i, j int) bool {
+			return kept[i].Freq < kept[j].Freq
 		})
 		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		kept = kept[toRemove:]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
@@ -612,13 +603,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From 802c8e9342ba484b9caa29a102b911c6be3fda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 39/76] fix: BPE training with a continuing subword prefix or
 an end of word suffix

---
 model/bpe/trainer.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 47e8ae6..0d7f665 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -311,24 +311,14 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 		for i, c := range chars {
 			var s string
 			if _, ok := w2id[c]; ok {
-				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
-					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
-					}
-				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
+				s = c
+				// Add the `continuingSubwordPrefix` if relevant: behind another `char`
+				if prefix := bt.ContinuingSubwordPrefix; prefix != nil && i > 0 {
+					s = fmt.Sprintf("%v%v", *prefix, s)
 				}
-				// Add the `endOfWordSuffix` if relevant
-				if i == len(chars)-1 { // last `char`
-					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
-					}
+				// Add the `endOfWordSuffix` if relevant: last `char`
+				if suffix := bt.EndOfWordSuffix; suffix != nil && i == len(chars)-1 {
+					s = fmt.Sprintf("%v%v", s, *suffix)
 				}
 
 				// Insert the new formed string if neccessary
-- 
2.43.0


From 698f5d8b0a22eb66d2aec70c8a14c6b59f9335e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 40/76] fix: BPE training counts the pairs of every word of
 every batch

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 0d7f665..e9035e3 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -408,7 +408,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -470,7 +470,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if h, ok := whereToUpdate[pair]; ok {
+					for k := range hashSet {
+						h[k] = struct{}{}
+					}
+				} else {
+					whereToUpdate[pair] = hashSet
+				}
 			}
 		}
 
-- 
2.43.0


From d08c47fb20a54ea3a2bb4ad3d7c8ab054067b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 41/76] fix: BPE training merges the most frequent pair at each
 step, deterministically

---
 model/bpe/trainer.go | 58 +++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index e9035e3..2cbcef4 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -639,16 +639,19 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	// 5. Do merges
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
-	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// countComparator sort heap descendingly by `Count` field of TMerge struct, then
+	// ascendingly by `Pair`.
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
+			p1, p2 := a.(TMerge).Pair, b.(TMerge).Pair
+			if p1.C1 != p2.C1 {
+				return utils.IntComparator(p1.C1, p2.C1)
+			}
 
-			return utils.TimeComparator(bTime, aTime)
+			return utils.IntComparator(p1.C2, p2.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
@@ -715,9 +718,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			// An outdated count
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
-			// fmt.Println("Not found. Push new one...")
 
 			continue
 		}
@@ -761,11 +764,15 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		newToken := fmt.Sprintf("%v%v", partA, partB)
 		// fmt.Printf("new token: %v\n", newToken)
 
-		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
+		// Insert new token, unless other merges give it already
+		newTokenId, ok := wordToId[newToken]
+		if !ok {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
 		merges = append(merges, TMerges{top.Pair, newTokenId})
+		pairCounts[top.Pair] = 0
 
 		type TChange struct {
 			WChange WChange
@@ -789,24 +796,17 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		}
 
 		// Introduce new formed pairs
-		// NOTE: reset `whereToUpdate` first
-		whereToUpdate = make(map[Pair]UintSet)
+		newPairs := make(map[Pair]struct{})
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
-
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
-
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
-				}
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			if pair == top.Pair {
+				// this pair is merged everywhere
+				continue
+			}
+			pairCounts[pair] += tc.WChange.Change * counts[tc.WIndex]
 
+			if tc.WChange.Change > 0 {
+				newPairs[pair] = struct{}{}
 				var hs UintSet = make(map[int]struct{})
 				if h, ok := whereToUpdate[pair]; !ok {
 					// if not existing, we create new one anyway
@@ -823,7 +823,8 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("length of whereToUpdate: %v\n", len(whereToUpdate))
 		// fmt.Println(whereToUpdate)
 
-		for pair, pos := range whereToUpdate {
+		for pair := range newPairs {
+			pos := whereToUpdate[pair]
 			count := pairCounts[pair]
 			// char1 := idToWord[pair.C1]
 			// char2 := idToWord[pair.C2]
@@ -849,6 +850,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	var newMerges Merges = make(map[Pair]PairVal)
 
 	for i, m := range merges {
+		if _, ok := newMerges[m.Pair]; ok {
+			continue
+		}
 		pairVal := PairVal{
 			i,
 			m.PairVal,
-- 
2.43.0


From 7d26bd42bf46bd8544746185b0b03539bb986da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 42/76] fix: WordPiece offsets are in bytes

---
 model/wordpiece/wordpiece.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..8a724e3 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -257,8 +257,14 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 	var outputTokens []tokenizer.Token
 
-	chars := []rune(sequence)
-	charLen := len(chars)
+	// Offsets are in bytes, as those of every model: byte index of each
+	// char, then the length of the sequence.
+	var bounds []int
+	for i := range sequence {
+		bounds = append(bounds, i)
+	}
+	bounds = append(bounds, len(sequence))
+	charLen := len(bounds) - 1
 	if charLen > wp.maxInputCharsPerWord {
 		id, ok := (*wp.vocab)[wp.unkToken]
 		if !ok {
@@ -268,7 +274,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -286,7 +292,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		var currStr *tokenizer.Token
 
 		for start < end {
-			substr := string(chars[start:end])
+			substr := sequence[bounds[start]:bounds[end]]
 			if start > 0 {
 				substr = fmt.Sprintf("%v%v", wp.continueSubwordPrefix, substr)
 			}
@@ -295,7 +301,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{bounds[start], bounds[end]},
 				}
 
 				break
@@ -320,7 +326,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From bec0c28bb775aebd129a68fa5054d56cb00dfa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 43/76] fix: WordPiece continuing subword prefix of a
 configuration is used

---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 8a724e3..30a64f7 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -424,7 +424,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From 0fe97214b13143adab0d79057cd16b55de5544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 44/76] fix: WordLevel: the unknown token has an id of its own,
 unknown words are tokenized to it

---
 model/wordlevel/wordlevel.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..ee57b3d 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -18,6 +18,7 @@ type config struct {
 // WordLevelBuilder is a builder for WordLevel model
 type WordLevelBuilder struct {
 	config *config
+	addUnk bool // whether to add the unknown token to the vocab
 }
 
 // defaultWordLevelBuilder creates a WordLevelBuilder with default values
@@ -46,18 +47,30 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 // UnkToken set `UNK` token for the vocab
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	wlb.addUnk = true
 }
 
 // Build builds a WordLevel using configuration
 func (wlb *WordLevelBuilder) Build() *WordLevel {
+	vocab := make(map[string]int)
 	var vocabR map[int]string = make(map[int]string)
+	nextId := 0
 	for k, v := range wlb.config.vocab {
+		vocab[k] = v
 		vocabR[v] = k
+		if v >= nextId {
+			nextId = v + 1
+		}
+	}
+
+	// The unknown token is in the vocab, under an id of its own.
+	if _, ok := vocab[wlb.config.unkToken]; !ok && wlb.addUnk {
+		vocab[wlb.config.unkToken] = nextId
+		vocabR[nextId] = wlb.config.unkToken
 	}
 
 	return &WordLevel{
-		vocab:    wlb.config.vocab,
+		vocab:    vocab,
 		vocabR:   vocabR,
 		unkToken: wlb.config.unkToken,
 	}
@@ -145,21 +158,22 @@ func (wl *WordLevel) Tokenize(token string) ([]tokenizer.Token, error) {
 	var (
 		id        int
 		ok, unkOk bool
+		value     string = token
 	)
 
 	id, ok = wl.vocab[token]
 	if !ok {
 		id, unkOk = wl.vocab[wl.unkToken]
 		if !unkOk {
-			fmt.Printf("token: %q\n", token)
 			err := fmt.Errorf("Missing 'unk' token in vocab.\n")
 			return nil, err
 		}
+		value = wl.unkToken
 	}
 
 	output = append(output, tokenizer.Token{
 		Id:      id,
-		Value:   token,
+		Value:   value,
 		Offsets: []int{0, len(token)},
 	})
 
-- 
2.43.0


From 5771f6cf412c7d444149e4fcb49e44de3c68a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 45/76] fix: Unigram: best segmentation whatever the length of
 tokens, byte fallback of unknown pieces only, with right offsets

---
 model/unigram/unigram.go | 106 ++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 52 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..1817e3e 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -42,6 +42,8 @@ type Unigram struct {
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
+	// Length in bytes of the longest token
+	maxTokenLen int
 	// Cache for tokenization
 	cache *Catch.Cache
 }
@@ -92,13 +94,17 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxTokenLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		if len(ts.Token) > maxTokenLen {
+			maxTokenLen = len(ts.Token)
+		}
 	}
 
 	// Validate unkID if provided
 	if ub.config.unkID != nil {
-		if *ub.config.unkID >= len(ub.config.vocab) {
+		if *ub.config.unkID < 0 || *ub.config.unkID >= len(ub.config.vocab) {
 			return nil, fmt.Errorf("unkID %d is out of vocabulary range (size: %d)", *ub.config.unkID, len(ub.config.vocab))
 		}
 	}
@@ -109,6 +115,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
+		maxTokenLen:   maxTokenLen,
 		cache:         Catch.New(CacheExpiredTime*time.Minute, CacheCleanTime*time.Minute),
 	}, nil
 }
@@ -248,15 +255,7 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 	data, ok := u.cache.Get(sequence)
 	if ok {
 		tokens := data.([]string)
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
+		return u.tokensToTokenizer(tokens), nil
 	}
 
 	// Tokenize using the Viterbi algorithm
@@ -264,28 +263,47 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 	if err != nil {
 		return nil, err
 	}
-	u.cache.Set(sequence, tokens, CacheExpiredTime)
+	if u.unkID == nil {
+		// Without unknown token, every byte of an unknown piece has to be a token
+		for _, token := range tokens {
+			if _, ok := u.TokenToId(token); ok {
+				continue
+			}
+			for _, byteToken := range u.tokenizeWithByteFallback(token) {
+				if _, ok := u.TokenToId(byteToken); !ok {
+					return nil, fmt.Errorf("could not tokenize %q: no token %q and no unknown token", token, byteToken)
+				}
+			}
+		}
+	}
+	u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
 
-	return u.tokensToTokenizer(tokens, sequence), nil
+	return u.tokensToTokenizer(tokens), nil
 }
 
-// tokensToTokenizer converts string tokens to tokenizer.Token
-func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenizer.Token {
+// tokensToTokenizer converts the pieces of a sequence to tokenizer.Token
+func (u *Unigram) tokensToTokenizer(tokens []string) []tokenizer.Token {
 	var result []tokenizer.Token
 	var offset int
 
 	for _, token := range tokens {
 		length := len(token)
 		id, ok := u.TokenToId(token)
-		if !ok {
-			// Handle unknown token
-			if u.unkID != nil {
-				id = *u.unkID
-			} else {
-				// Skip if no unkID is defined
-				offset += length
-				continue
+		if !ok && u.bytesFallback {
+			// The bytes of an unknown piece, all of them at its offsets
+			for _, byteToken := range u.tokenizeWithByteFallback(token) {
+				id, _ := u.TokenToId(byteToken)
+				result = append(result, tokenizer.Token{
+					Id:      id,
+					Value:   byteToken,
+					Offsets: []int{offset, offset + length},
+				})
 			}
+			offset += length
+			continue
+		}
+		if !ok {
+			id = *u.unkID
 		}
 
 		result = append(result, tokenizer.Token{
@@ -329,6 +347,10 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 	// Constant for unknown token penalty, matching the Rust implementation
 	const kUnkPenalty float64 = 10.0
 	unkScore := u.getMinScore() - kUnkPenalty
+	unkID := -1
+	if u.unkID != nil {
+		unkID = *u.unkID
+	}
 
 	// For each position in the lattice
 	for i := 0; i < n; i++ {
@@ -338,8 +360,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		maxLen := u.maxTokenLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
@@ -348,11 +369,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		hasSingleNode := false
 
 		// Get the length of the current character in UTF-8
-		charLen := 1
-		if i < n {
-			r, _ := utf8.DecodeRuneInString(sequence[i:])
-			charLen = utf8.RuneLen(r)
-		}
+		_, charLen := utf8.DecodeRuneInString(sequence[i:])
 
 		// Try to match tokens of all lengths
 		// We don't need to iterate from longest to shortest anymore
@@ -372,13 +389,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			// If the token is in the vocabulary, use its score
 			score := u.vocab[id].Score
 
-			// Add a bonus for longer tokens to match the Rust implementation
-			// This helps prioritize longer tokens like "ab" over "a" + "b"
-			tokenLength := j - i
-			lengthBonus := float64(tokenLength) * 0.1
-
 			// Calculate the new score for this path
-			newScore := lattice[i].bestScore + score + lengthBonus
+			newScore := lattice[i].bestScore + score
 
 			// If this is a better path to position j, update the lattice
 			if newScore > lattice[j].bestScore {
@@ -393,38 +405,28 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			}
 		}
 
-		// If we haven't found a single character token and we have an unknown token ID,
-		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		// If we haven't found a single character token and we have a way to represent
+		// an unknown character, add an unknown token for this character
+		if !hasSingleNode && (u.unkID != nil || u.bytesFallback) {
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = unkID
 				}
 			}
 		}
 	}
 
-	// If we couldn't reach the end of the sequence, handle unknown tokens
+	// The end of the sequence is out of reach without a way to represent unknown characters
 	if lattice[n].bestScore == math.Inf(-1) {
-		// If we have an unknown token ID, return the whole sequence as unknown
-		if u.unkID != nil {
-			return []string{sequence}, nil
-		}
-
-		// If we're using byte fallback, handle it here
-		if u.bytesFallback {
-			return u.tokenizeWithByteFallback(sequence), nil
-		}
-
 		return nil, fmt.Errorf("could not tokenize sequence with Viterbi algorithm")
 	}
 
 	// Backtrack to find the best segmentation
-	if u.fuseUnk && u.unkID != nil {
+	if u.fuseUnk {
 		// When fuseUnk is true, we need to fuse consecutive unknown tokens
 		var tokens []string
 		var unkTokens []string
@@ -441,7 +443,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			id := lattice[pos].id
 
 			// Check if this is an unknown token
-			if id == *u.unkID {
+			if id == unkID {
 				// Add to the list of unknown tokens
 				unkTokens = append([]string{token}, unkTokens...)
 			} else {
-- 
2.43.0


From e0f64ac54b10a0686422244a1426aeae49844ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 46/76] fix: Unigram is saved in the format models are loaded
 from

---
 model/unigram/unigram.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 1817e3e..a73db52 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -220,16 +220,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	defer vocabFile.Close()
 
 	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// (pairs of a token and its score, as in "tokenizer.json").
+	vocabEntries := make([][2]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = [2]interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -238,6 +232,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 146985e2c7e335762f885c1af1593e5a47ebfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 47/76] fix: added tokens are found whatever the script of the
 words and spaces around them

---
 added-vocabulary.go | 103 +++++++++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 34 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index dd9554d..f151079 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -5,9 +5,10 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strings"
 	"unicode"
+	"unicode/utf8"
 
-	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
 )
 
@@ -181,12 +182,38 @@ func isWordCharacter(r rune) bool {
 	return false
 }
 
-// matchingSet is a set of regular expression string
+// matchingSet is a set of tokens to look for, with the contents to look for them
 type matchingSet struct {
-	regexSet regexpset.RegexpSet
+	tokens   []AddedToken
+	contents []string
 	ids      []int
 }
 
+// isMatch returns whether the token at `idx`, found at `[start, end)` of given sentence,
+// is a match there: never part of a word if it should be a single word, and never
+// part of a char.
+func (m matchingSet) isMatch(idx int, sentence string, start, end int) bool {
+	if !utf8.RuneStart(sentence[start]) || (end < len(sentence) && !utf8.RuneStart(sentence[end])) {
+		return false
+	}
+	if !m.tokens[idx].SingleWord {
+		return true
+	}
+
+	before, _ := utf8.DecodeLastRuneInString(sentence[:start])
+	first, _ := utf8.DecodeRuneInString(m.contents[idx])
+	if start > 0 && isWordCharacter(first) && isWordCharacter(before) {
+		return false
+	}
+	after, _ := utf8.DecodeRuneInString(sentence[end:])
+	last, _ := utf8.DecodeLastRuneInString(m.contents[idx])
+	if end < len(sentence) && isWordCharacter(last) && isWordCharacter(after) {
+		return false
+	}
+
+	return true
+}
+
 // AddedVocabulary is a vocabulary built on top of the Model
 //
 // This provides a way to add new vocabulary to a Tokenizer that has already been trained,
@@ -325,13 +352,12 @@ type tokenId struct {
 	id    int
 }
 
-// refreshAddedTokens reconstructs our internal RegexSet when new tokens are added to the vocabulary.
+// refreshAddedTokens reconstructs our internal matching sets when new tokens are added to the vocabulary.
 //
-// NOTE. We keep two different regular expression sets, one that will take care of matching against the
+// NOTE. We keep two different sets, one that will take care of matching against the
 // non-normalized string, and one matching against the normalized one.
 func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer.Normalizer) {
-	var normIds, nnormIds []int
-	var normPatterns, nnormPatterns []string
+	var normSet, nnormSet matchingSet
 	tokens := append(av.specialTokens, av.addedTokens...)
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
@@ -339,31 +365,22 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 			log.Fatalf("Missing additional token.\n")
 		}
 
-		if token.normalizedContent(normalizer) == "" {
+		content := token.normalizedContent(normalizer)
+		if content == "" {
 			continue // nothing to look for
 		}
 
-		pattern := token.GetPattern(normalizer)
+		set := &nnormSet
 		if token.Normalized {
-			normIds = append(normIds, id)
-			normPatterns = append(normPatterns, pattern)
-		} else {
-			nnormIds = append(nnormIds, id)
-			nnormPatterns = append(nnormPatterns, pattern)
+			set = &normSet
 		}
+		set.tokens = append(set.tokens, token)
+		set.contents = append(set.contents, content)
+		set.ids = append(set.ids, id)
 	}
 
-	normSet, err := regexpset.NewRegexpSet(normPatterns)
-	if err != nil {
-		log.Fatal(err)
-	}
-	nnormSet, err := regexpset.NewRegexpSet(nnormPatterns)
-	if err != nil {
-		log.Fatal(err)
-	}
-
-	av.splitNormalizedRe = matchingSet{*normSet, normIds}
-	av.splitRe = matchingSet{*nnormSet, nnormIds}
+	av.splitNormalizedRe = normSet
+	av.splitRe = nnormSet
 }
 
 type idOffsets struct {
@@ -380,16 +397,20 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		return []idOffsets{{-1, []int{0, 0}}}
 	}
 
-	matches := splitRe.regexSet.Matches(sentence).Matches()
 	var ioPairs []idOffsets
 
-	for _, idx := range matches {
-		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringIndex(sentence, -1)
-		for _, loc := range locs {
-			id := idx
-			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
-			ioPairs = append(ioPairs, ioPair)
+	for idx, content := range splitRe.contents {
+		for from := 0; ; {
+			at := strings.Index(sentence[from:], content)
+			if at < 0 {
+				break
+			}
+			start := from + at
+			end := start + len(content)
+			if splitRe.isMatch(idx, sentence, start, end) {
+				ioPairs = append(ioPairs, idOffsets{id: idx, offsets: []int{start, end}})
+			}
+			from = start + 1 // occurrences may overlap
 		}
 	}
 
@@ -440,7 +461,21 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		finalSplits []idOffsets
 	)
 
-	for _, ioPair := range splits {
+	for i, ioPair := range splits {
+		// Include the whitespaces to strip, up to the tokens around
+		if splitRe.tokens[ioPair.id].LStrip {
+			before := strings.TrimRightFunc(sentence[startOffset:ioPair.offsets[0]], unicode.IsSpace)
+			ioPair.offsets[0] = startOffset + len(before)
+		}
+		if splitRe.tokens[ioPair.id].RStrip {
+			next := len(sentence)
+			if i+1 < len(splits) {
+				next = splits[i+1].offsets[0]
+			}
+			after := strings.TrimLeftFunc(sentence[ioPair.offsets[1]:next], unicode.IsSpace)
+			ioPair.offsets[1] = next - len(after)
+		}
+
 		if startOffset < ioPair.offsets[0] {
 			finalSplits = append(finalSplits, idOffsets{-1, []int{startOffset, ioPair.offsets[0]}})
 		}
-- 
2.43.0


From 1e2fcbef408dc09fe1dd402f4ff9f12c02e7f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 48/76] fix: an added token never takes the id of another token

---
 added-vocabulary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index f151079..05d0cbc 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -330,6 +330,12 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			id = i
 		} else {
 			id = model.GetVocabSize() + len(av.addedTokenMap)
+			for { // the ids of the model may not be contiguous
+				if _, ok := av.IdToToken(id, model); !ok {
+					break
+				}
+				id++
+			}
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
-- 
2.43.0


From cca08d17b34fc55e128be42aa7f0533d5704deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 49/76] fix: special tokens are listed in the order they were
 added

---
 tokenizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 22225e7..a041815 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -364,11 +364,11 @@ func (t *Tokenizer) GetVocabSize(withAddedTokens bool) int {
 	return t.model.GetVocabSize() + t.addedVocabulary.Len()
 }
 
-// GetSpecialTokens returns a slice of special tokens.
+// GetSpecialTokens returns a slice of special tokens, in the order they were added.
 func (t *Tokenizer) GetSpecialTokens() []string {
 	var tokens []string
-	for k := range t.addedVocabulary.specialTokensSet {
-		tokens = append(tokens, k)
+	for _, tok := range t.addedVocabulary.specialTokens {
+		tokens = append(tokens, tok.Content)
 	}
 
 	return tokens
-- 
2.43.0


From e35c26b32b8d4fd5285c9aaca96a38983f394a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 50/76] fix: training without a pre-tokenizer, or from a
 missing file, does not exit

---
 tokenizer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index a041815..7c1607d 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -765,7 +765,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
@@ -909,9 +909,12 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
-		pretokenized, err := t.doPreTokenize(pretok)
-		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+		pretokenized := pretok
+		if t.preTokenizer != nil {
+			pretokenized, err = t.doPreTokenize(pretok)
+			if err != nil {
+				log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			}
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
-- 
2.43.0


From 22140853640c2a86d24e4ef908ae44ee0f32c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 51/76] fix: training reads each line of a large file exactly
 once

---
 tokenizer.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 7c1607d..a0fa862 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -786,8 +786,6 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
 		var limit int64 = 100 * mb
 
 		fi, err := os.Stat(file)
@@ -804,7 +802,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 			go func(n int, file string) {
 				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
 				fmt.Printf("File chunk %d has been completed\n", n)
 				scanWG.Done()
 			}(n, file)
@@ -861,11 +859,11 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 }
 
 // processChunk reads file chunk and processes it to word-count and sends off to channel
-// offset: start bound
-// limit: end bound
+// offset: start of the chunk in the file
+// limit: size of the chunk. A line belongs to the chunk it starts in.
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
+// current: point of the file where the file processing stops.
 // trainer: Trainer to process tokens
 func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
 	file, err := os.Open(filename)
@@ -874,22 +872,33 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
+	// move the pointer of the file to the start of designated chunk, or just before
+	// it to find out where its first line starts.
+	position := offset
+	if offset > 0 {
+		position--
+	}
+	if _, err := file.Seek(position, 0); err != nil { // 0 means relative to the origin of file
+		panic(err)
+	}
 
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 1*gb) // initial buffer
 	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
 
-	var cummulativeSize int64
+	// position is the one of the next line
+	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, line, err := bufio.ScanLines(data, atEOF)
+		position += int64(advance)
+		return advance, line, err
+	})
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
-			break
-		}
+	if offset > 0 {
+		scanner.Scan() // it belongs to the previous chunk
+	}
 
+	// Stop when the next line is one of the next chunk
+	for position < offset+limit && scanner.Scan() {
 		// line words
 		lwords := make(map[string]int)
 		var line string
@@ -946,7 +955,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize
+	return position
 }
 
 /*
-- 
2.43.0


From 8c1460ad63de9024a5eb8e2179bcbeaa565ddf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 52/76] fix: default decoders decode instead of panicking

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From cd131d2a014e33eee1399dbc35ada51ea19c7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 53/76] fix: byte fallback and strip decoders do not panic on
 tokens they do not apply to

---
 decoder/byte-fallback.go | 7 +++----
 decoder/strip.go         | 5 ++++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..a0096f3 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -37,13 +37,12 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 
 	for _, token := range tokens {
 		var bytes []byte
-		var err error
 
 		if len(token) == 6 && strings.HasPrefix(token, "<0x") && strings.HasSuffix(token, ">") {
 			// convert hex string to bytes
-			bytes, err = hex.DecodeString(token[3:5])
-			if err != nil {
-				panic(err)
+			// (a token with any other chars is not a byte)
+			if b, err := hex.DecodeString(token[3:5]); err == nil {
+				bytes = b
 			}
 		}
 
diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..e58fe8b 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -49,6 +49,9 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		stopCut := len(chars)
 		for i := 0; i < d.Stop; i++ {
 			index := len(chars) - i - 1
+			if index < startCut {
+				break
+			}
 			if chars[index] == d.Content {
 				stopCut = index
 				continue
-- 
2.43.0


From 0e8ec10ccd53b0056cdeee894ae244246839257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 54/76] fix: string and regex patterns of a configuration are
 what they say

---
 pretrained/decoder.go      | 4 ++--
 pretrained/normalizer.go   | 4 ++--
 pretrained/pretokenizer.go | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..b73d924 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -167,9 +167,9 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..63e0e23 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -110,9 +110,9 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..e45efe8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -188,7 +188,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From 17bb52bc39d123139505f7a1602358bd15181b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 55/76] fix: BERT strips accents when it lowercases, unless
 told otherwise

---
 pretrained/normalizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 63e0e23..f71c32d 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -90,8 +90,9 @@ func createBertNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 
 	cleanText := params.Get("clean_text", false).(bool)
 	handleChineseChars := params.Get("handle_chinese_chars", false).(bool)
-	stripAccents := params.Get("strip_accents", false).(bool)
 	lowercase := params.Get("lowercase", false).(bool)
+	// If not specified, it is determined by `lowercase` (as in the original BERT)
+	stripAccents := params.Get("strip_accents", lowercase).(bool)
 
 	return normalizer.NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents), nil
 }
-- 
2.43.0


From 2a2b9969c9619c1c237860928c94061dde5cc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 56/76] fix: CTC and Metaspace decoders read the keys of
 tokenizer.json

---
 pretrained/decoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index b73d924..5b2d80b 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -14,6 +14,7 @@ package pretrained
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/decoder"
@@ -84,6 +85,9 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 
 	replacement := params.Get("replacement", "").(string)
 	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
+	if params.Has("prepend_scheme") {
+		addPrefixSpace = strings.ToLower(params.Get("prepend_scheme").(string)) != "never"
+	}
 
 	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
 }
@@ -94,7 +98,11 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 	}
 
 	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter").(string)
+	key := "word_delimiter_token"
+	if !params.Has(key) {
+		key = "word_delimiter"
+	}
+	wordDelimiter := params.Get(key).(string)
 	cleanup := params.Get("cleanup").(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
-- 
2.43.0


From 20cffe4d60aeda53ae27d22f8d98ef928831f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 57/76] fix: added tokens of a configuration get their ids in
 its order

---
 pretrained/tokenizer.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..57df51d 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -71,13 +71,20 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	}
 	tk.WithDecoder(decoder)
 
-	// 6. AddedVocabulary
-	specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens)
-	if len(specialAddedTokens) > 0 {
-		tk.AddSpecialTokens(specialAddedTokens)
-	}
-	if len(addedTokens) > 0 {
-		tk.AddTokens(addedTokens)
+	// 6. AddedVocabulary, in the order of the configuration as new tokens get
+	// their ids in the order they are added.
+	for start, end := 0, 0; start < len(config.AddedTokens); start = end {
+		special := config.AddedTokens[start].Special
+		for end < len(config.AddedTokens) && config.AddedTokens[end].Special == special {
+			end++
+		}
+		specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens[start:end])
+		if len(specialAddedTokens) > 0 {
+			tk.AddSpecialTokens(specialAddedTokens)
+		}
+		if len(addedTokens) > 0 {
+			tk.AddTokens(addedTokens)
+		}
 	}
 
 	// 7. TruncationParams
-- 
2.43.0


From 1240e8fabad15dabd4d9dfbcf03d375230c254a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 58/76] fix: CharDelimiterSplit of tokenizer.json is a known
 pre-tokenizer

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index e45efe8..ab26119 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -36,7 +36,7 @@ func CreatePreTokenizer(config map[string]interface{}) (tokenizer.PreTokenizer,
 		return pretokenizer.NewBertPreTokenizer(), nil
 	case "ByteLevel":
 		return createByteLevelPreTokenizer(params)
-	case "Delimiter":
+	case "Delimiter", "CharDelimiterSplit":
 		return createDelimiterPreTokenizer(params)
 	case "Metaspace":
 		return createMetaspacePreTokenizer(params)
-- 
2.43.0


From 99375d7aff7a51134e6316e47ac550945896edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 59/76] fix: an invalid configuration is an error, not a panic

---
 pretrained/tokenizer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index 57df51d..b6fee7b 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -25,11 +25,21 @@ func FromFile(file string) (*tokenizer.Tokenizer, error) {
 }
 
 // FromReader constructs a new Tokenizer from json data reader.
-func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
+func FromReader(r io.Reader) (tk *tokenizer.Tokenizer, err error) {
+	// Values of an unexpected type, missing ones, patterns which do not compile...
+	defer func() {
+		if r := recover(); r != nil {
+			tk, err = nil, fmt.Errorf("invalid configuration: %v", r)
+		}
+	}()
+
 	var config *tokenizer.Config
 	if err := json.NewDecoder(r).Decode(&config); err != nil {
 		return nil, err
 	}
+	if config == nil {
+		return nil, fmt.Errorf("invalid configuration: null")
+	}
 
 	model, err := CreateModel(config)
 	if err != nil {
@@ -37,7 +47,7 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 		return nil, err
 	}
 
-	tk := tokenizer.NewTokenizer(model)
+	tk = tokenizer.NewTokenizer(model)
 
 	// 2. Normalizer
 	n, err := CreateNormalizer(config.Normalizer)
-- 
2.43.0


From d0ea5c26cca108e968eea53fa7e60319aa68e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 60/76] fix: saving a model creates the directory, as it is
 meant to

---
 model/bpe/bpe.go             | 5 +----
 model/wordlevel/wordlevel.go | 5 +----
 model/wordpiece/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index aa319c4..53b53fe 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -613,11 +613,8 @@ func deleteWord(a []Word, i int) ([]Word, error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
 	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
+
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index ee57b3d..9370b2e 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -250,11 +250,8 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
 	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
+
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 30a64f7..032e707 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -404,11 +404,8 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
 	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
+
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
-- 
2.43.0


From 05ac7c68f56a77b88f49b62a3083582c3e069a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 61/76] fix: merges given as pairs of tokens may contain spaces

---
 model/bpe/bpe.go    | 47 ++++++++++++++++++++++++++++++++++++---------
 pretrained/model.go | 19 ++++++++++++------
 2 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 53b53fe..e13a491 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -629,21 +629,33 @@ func mergedToken(a, b string, prefix *string) string {
 }
 
 func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
-	return createMerges(vocab, mergesData, nil)
+	pairs, err := splitMerges(mergesData)
+	if err != nil {
+		return nil, err
+	}
+
+	return createMerges(vocab, pairs, nil)
 }
 
-func createMerges(vocab map[string]int, mergesData []string, prefix *string) (*Merges, error) {
-	var (
-		lineNum int    = 0
-		merges  Merges = make(map[Pair]PairVal)
-	)
-	for _, line := range mergesData {
+func splitMerges(mergesData []string) ([][2]string, error) {
+	pairs := make([][2]string, len(mergesData))
+	for i, line := range mergesData {
 		parts := strings.Split(line, " ")
 		if len(parts) != 2 {
-			err := fmt.Errorf("Read merges error: invalid data at line %d\n", lineNum)
-			return nil, err
+			return nil, fmt.Errorf("Read merges error: invalid data at line %d\n", i)
 		}
+		pairs[i] = [2]string{parts[0], parts[1]}
+	}
 
+	return pairs, nil
+}
+
+func createMerges(vocab map[string]int, mergesData [][2]string, prefix *string) (*Merges, error) {
+	var (
+		lineNum int    = 0
+		merges  Merges = make(map[Pair]PairVal)
+	)
+	for _, parts := range mergesData {
 		a, ok := vocab[parts[0]]
 		if !ok {
 			// err = fmt.Errorf("Read merge file error: part a value for '%s' key not found.", parts[0])
@@ -685,6 +697,23 @@ func New(
 	unkToken *string,
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
+) (*BPE, error) {
+	pairs, err := splitMerges(mergesData)
+	if err != nil {
+		return nil, err
+	}
+
+	return NewFromPairs(vocab, pairs, dropout, unkToken, continuingSubwordPrefix, endOfWordSuffix)
+}
+
+// NewFromPairs is like New, with merges as pairs of tokens (which may contain spaces).
+func NewFromPairs(
+	vocab model.Vocab,
+	mergesData [][2]string,
+	dropout *float32,
+	unkToken *string,
+	continuingSubwordPrefix *string,
+	endOfWordSuffix *string,
 ) (*BPE, error) {
 	merges, err := createMerges(vocab, mergesData, continuingSubwordPrefix)
 	if err != nil {
diff --git a/pretrained/model.go b/pretrained/model.go
index 3a01e3c..1119102 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -3,6 +3,7 @@ package pretrained
 import (
 	"fmt"
 	"log"
+	"strings"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -109,7 +110,7 @@ func createBPE(params *util.Params) (tokenizer.Model, error) {
 		return nil, err
 	}
 
-	return bpe.New(vocab, merges, dropout, unkToken, continuingSubwordPrefix, endOfWordSuffix)
+	return bpe.NewFromPairs(vocab, merges, dropout, unkToken, continuingSubwordPrefix, endOfWordSuffix)
 }
 
 // WordPiece json format:
@@ -216,22 +217,28 @@ func castVocab(input map[string]interface{}) model.Vocab {
 	return out
 }
 
-func castMerge(input []interface{}) ([]string, error) {
-	out := make([]string, len(input))
+func castMerge(input []interface{}) ([][2]string, error) {
+	out := make([][2]string, len(input))
 	for i, v := range input {
 		switch vTyped := v.(type) {
 		case []interface{}:
 			if len(vTyped) != 2 {
 				return nil, fmt.Errorf("invalid merge format: %#v should be of length 2", vTyped)
 			}
-			out[i] = vTyped[0].(string) + " " + vTyped[1].(string)
+			out[i] = [2]string{vTyped[0].(string), vTyped[1].(string)}
 		case []string:
 			if len(vTyped) != 2 {
 				return nil, fmt.Errorf("invalid merge format: %#v should be of length 2", vTyped)
 			}
-			out[i] = vTyped[0] + " " + vTyped[1]
+			out[i] = [2]string{vTyped[0], vTyped[1]}
 		case string:
-			out[i] = vTyped
+			parts := strings.Split(vTyped, " ")
+			if len(parts) != 2 {
+				return nil, fmt.Errorf("invalid merge format: %#v should be 2 tokens", vTyped)
+			}
+			out[i] = [2]string{parts[0], parts[1]}
+		default:
+			return nil, fmt.Errorf("invalid merge format: %#v", v)
 		}
 	}
 
-- 
2.43.0


From ac6469e00a839b3718fff3041a43f283f76588cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 62/76] fix: cached files are complete, copied into new
 directories, downloaded once

---
 file-util.go | 77 ++++++++++++++++++++++++++--------------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..e311fe8 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -73,18 +72,13 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
-			err := downloadFile(url, cachedFileCandidate)
-			if err != nil {
-				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
-				return "", err
-			}
-
-			return cachedFileCandidate, nil
-		} else {
-			err = fmt.Errorf("CachedPath() failed: Unable to parse '%v' as a URL or as a local path.\n", url)
+		err := downloadFile(url, cachedFileCandidate)
+		if err != nil {
+			err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
 			return "", err
 		}
+
+		return cachedFileCandidate, nil
 	}
 
 	// Not resolves
@@ -103,22 +97,7 @@ func isValidURL(url string) bool {
 // the entire file into memory. An `io.TeeReader` is passed into Copy()
 // to report progress on the download.
 func downloadFile(url string, filepath string) error {
-	// Create path if not existing
-	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
-	}
-
-	// Create the file with .tmp extension, so that we won't overwrite a
-	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
-	if err != nil {
-		return err
-	}
-	defer out.Close()
 
 	// Get the data
 	resp, err := http.Get(url)
@@ -153,8 +132,7 @@ func downloadFile(url string, filepath string) error {
 
 	// Create our bytes counter and pass it to be used alongside our writer
 	counter := &writeCounter{FileSize: downloadSize}
-	_, err = io.Copy(out, io.TeeReader(resp.Body, counter))
-	if err != nil {
+	if err := writeFile(filepath, io.TeeReader(resp.Body, counter)); err != nil {
 		return err
 	}
 
@@ -162,13 +140,42 @@ func downloadFile(url string, filepath string) error {
 	// The progress use the same line so print a new line once it's finished downloading
 	fmt.Println()
 
-	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
+	return nil
+}
+
+// writeFile writes what it reads to a file, which exists only once it is complete.
+func writeFile(filepath string, r io.Reader) (err error) {
+	// Create path if not existing
+	dir := path.Dir(filepath)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
+	}
+
+	// Write to a file of our own with .tmp extension, so that we won't overwrite a
+	// file until it's written fully
+	out, err := os.CreateTemp(dir, path.Base(filepath)+".*.tmp")
 	if err != nil {
 		return err
 	}
+	defer func() {
+		out.Close()
+		if err != nil {
+			os.Remove(out.Name())
+		}
+	}()
 
-	return nil
+	if _, err := io.Copy(out, r); err != nil {
+		return err
+	}
+	if err := out.Chmod(0644); err != nil {
+		return err
+	}
+	if err := out.Close(); err != nil {
+		return err
+	}
+
+	// Rename the tmp file back to the original file
+	return os.Rename(out.Name(), filepath)
 }
 
 // writeCounter counts the number of bytes written to it. By implementing the Write method,
@@ -227,13 +234,7 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
-	if err != nil {
-		return err
-	}
-	defer destination.Close()
-	_, err = io.Copy(destination, source)
-	return err
+	return writeFile(dst, source)
 }
 
 // CleanCache removes all files cached in transformer cache directory `CachedDir`.
-- 
2.43.0


From 3b1754a0674f1b0e3f3f3512368d69cd45f9cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 63/76] fix: whitespace stripped by an added token ends at a
 char

---
 added-vocabulary.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 05d0cbc..adbebf4 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -479,7 +479,13 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 				next = splits[i+1].offsets[0]
 			}
 			after := strings.TrimLeftFunc(sentence[ioPair.offsets[1]:next], unicode.IsSpace)
-			ioPair.offsets[1] = next - len(after)
+			end := next - len(after)
+			if end < len(sentence) && end > ioPair.offsets[1] && !utf8.RuneStart(sentence[end]) {
+				// a stray byte goes with the whitespace before it
+				_, size := utf8.DecodeLastRuneInString(sentence[:end])
+				end -= size
+			}
+			ioPair.offsets[1] = end
 		}
 
 		if startOffset < ioPair.offsets[0] {
-- 
2.43.0


From df63be2bf7639ac85fb8d0529a73d75236523fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 64/76] fix: merging no encoding gives an empty one, as an
 empty template does

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index a0fa862..a617896 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -129,7 +129,7 @@ func MergeEncodings(encodings []Encoding, growingOffsets bool) *Encoding {
 	var out *Encoding
 	switch len(encodings) {
 	case 0:
-		return nil
+		out = DefaultEncoding()
 	case 1:
 		out = &encodings[0]
 	case 2:
-- 
2.43.0


From 515d65ec0c772296d6821d48b579681751a09d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 65/76] fix: a byte which belongs to no char is a char of its
 own when slicing

---
 added-vocabulary.go      | 11 +++--------
 normalizer/normalized.go | 17 ++++-------------
 util/util.go             | 17 +++++++++++++++++
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index adbebf4..8380865 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -10,6 +10,7 @@ import (
 	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/normalizer"
+	"github.com/sugarme/tokenizer/util"
 )
 
 // AddedToken represents a token added by the user on top of the
@@ -193,7 +194,7 @@ type matchingSet struct {
 // is a match there: never part of a word if it should be a single word, and never
 // part of a char.
 func (m matchingSet) isMatch(idx int, sentence string, start, end int) bool {
-	if !utf8.RuneStart(sentence[start]) || (end < len(sentence) && !utf8.RuneStart(sentence[end])) {
+	if !util.IsCharBoundary(sentence, start) || !util.IsCharBoundary(sentence, end) {
 		return false
 	}
 	if !m.tokens[idx].SingleWord {
@@ -479,13 +480,7 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 				next = splits[i+1].offsets[0]
 			}
 			after := strings.TrimLeftFunc(sentence[ioPair.offsets[1]:next], unicode.IsSpace)
-			end := next - len(after)
-			if end < len(sentence) && end > ioPair.offsets[1] && !utf8.RuneStart(sentence[end]) {
-				// a stray byte goes with the whitespace before it
-				_, size := utf8.DecodeLastRuneInString(sentence[:end])
-				end -= size
-			}
-			ioPair.offsets[1] = end
+			ioPair.offsets[1] = next - len(after)
 		}
 
 		if startOffset < ioPair.offsets[0] {
diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index d96bffa..1f60d7d 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -6,6 +6,7 @@ import (
 	"unicode"
 	"unicode/utf8"
 
+	"github.com/sugarme/tokenizer/util"
 	slice "github.com/sugarme/tokenizer/util/slice"
 
 	"golang.org/x/text/unicode/norm"
@@ -349,19 +350,9 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 		return inputRange
 	}
 
-	// Check if r.start is on a rune boundary
-	if r.start != 0 && r.start != len(s) {
-		// If not the very start, verify it's a valid rune boundary
-		if !utf8.RuneStart(s[r.start]) {
-			return nil
-		}
-	}
-
-	// Check if r.end is on a rune boundary
-	if r.end != len(s) {
-		if !utf8.RuneStart(s[r.end]) {
-			return nil
-		}
+	// Check if both ends are on a rune boundary
+	if !util.IsCharBoundary(s, r.start) || !util.IsCharBoundary(s, r.end) {
+		return nil
 	}
 
 	return inputRange
diff --git a/util/util.go b/util/util.go
index c03c077..89d1ffd 100644
--- a/util/util.go
+++ b/util/util.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/rivo/uniseg"
 )
@@ -106,6 +107,22 @@ func MinMax(array []int) (int, int) {
 	return min, max
 }
 
+// IsCharBoundary returns whether a char of the given string starts or ends at the given
+// position. As anywhere in Go, a byte which belongs to no valid char is a char of its own.
+func IsCharBoundary(s string, pos int) bool {
+	if pos <= 0 || pos >= len(s) || utf8.RuneStart(s[pos]) {
+		return pos >= 0 && pos <= len(s)
+	}
+
+	start := pos - 1
+	for start > 0 && start > pos-utf8.UTFMax && !utf8.RuneStart(s[start]) {
+		start--
+	}
+	_, size := utf8.DecodeRuneInString(s[start:])
+
+	return start+size <= pos
+}
+
 // StringInSlice check whether given string is in a slice
 func StringInSlice(a string, list []string) bool {
 	for _, b := range list {
-- 
2.43.0


From 521df5984e3a23d29b552d1d54006e4b31867a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 66/76] fix: a template of a configuration is refused when its
 special tokens are missing or malformed

---
 pretrained/processor.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index 06feeac..2afe556 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -33,7 +33,7 @@ func CreatePostProcessor(config map[string]interface{}) (tokenizer.PostProcessor
 	case "ByteLevel":
 		return createByteLevel(params)
 	case "TemplateProcessing": // T5
-		return createTemplateProcessing(params), nil
+		return createTemplateProcessing(params)
 	case "Sequence":
 		return createSequence(params)
 
@@ -135,7 +135,7 @@ func createByteLevel(params *util.Params) (tokenizer.PostProcessor, error) {
     }
   },
 */
-func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
+func createTemplateProcessing(params *util.Params) (tokenizer.PostProcessor, error) {
 	var (
 		single        processor.Template
 		pair          processor.Template
@@ -198,6 +198,9 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 			ids := util.ConvertSlice[float64, int](util.CastSlice[float64](d["ids"].([]interface{})))
 
 			tokens := util.CastSlice[string](d["tokens"].([]interface{}))
+			if len(ids) != len(tokens) {
+				return nil, fmt.Errorf("special token %q has %d ids but %d tokens", id, len(ids), len(tokens))
+			}
 			tok := processor.NewSpecialToken(id, ids, tokens)
 			toks = append(toks, *tok)
 		}
@@ -205,7 +208,15 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 		specialTokens = processor.NewTokensFrom(toks)
 	}
 
-	return processor.NewTemplateProcessing(single, pair, specialTokens)
+	for _, piece := range util.Merge(single, pair) {
+		if spt, ok := piece.(*processor.SpecialTokenPiece); ok {
+			if _, ok := specialTokens.GetItemByKey(spt.Id); !ok {
+				return nil, fmt.Errorf("missing special token %q", spt.Id)
+			}
+		}
+	}
+
+	return processor.NewTemplateProcessing(single, pair, specialTokens), nil
 }
 
 func createSequence(params *util.Params) (tokenizer.PostProcessor, error) {
-- 
2.43.0


From 109ac38ef39aacc9ca17ca004e738114cc40216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 67/76] fix: a template of a configuration asks for existing
 sequences only

---
 pretrained/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index 2afe556..d17af85 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -208,6 +208,11 @@ func createTemplateProcessing(params *util.Params) (tokenizer.PostProcessor, err
 		specialTokens = processor.NewTokensFrom(toks)
 	}
 
+	for _, piece := range single {
+		if sp, ok := piece.(*processor.SequencePiece); ok && sp.Id != processor.A {
+			return nil, fmt.Errorf("the template of a single sequence has no sequence other than \"A\"")
+		}
+	}
 	for _, piece := range util.Merge(single, pair) {
 		if spt, ok := piece.(*processor.SpecialTokenPiece); ok {
 			if _, ok := specialTokens.GetItemByKey(spt.Id); !ok {
-- 
2.43.0


From 55bde930ac4ad50dd70ed0080d5e9dace6689e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 68/76] fix: truncation with a negative stride is an error

---
 encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 0b7529a..45eff43 100644
--- a/encoding.go
+++ b/encoding.go
@@ -333,8 +333,8 @@ func (e *Encoding) Char2Word(pos int) (retVal int, ok bool) {
 // Truncate truncates the current encoding
 func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error) {
 
-	if stride >= maxLen || maxLen == 0 {
-		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be less than maxLen and maxLen must be greater than zero.)")
+	if stride < 0 || stride >= maxLen || maxLen == 0 {
+		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be positive, less than maxLen and maxLen must be greater than zero.)")
 	}
 
 	if maxLen >= len(e.Ids) {
-- 
2.43.0


From 6a6ba2d7efd7d7f084bd54770a4235f8d6e434c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 69/76] fix: the cased BERT preset keeps accents

---
 pretrained/bert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 9f3384e..7fecf8b 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -89,8 +89,8 @@ func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
 
 	tk := tokenizer.NewTokenizer(model)
 
-	// NOTE. set lowercase to false for cased
-	bertNormalizer := normalizer.NewBertNormalizer(true, false, true, true)
+	// NOTE. set lowercase and strip accents to false for cased
+	bertNormalizer := normalizer.NewBertNormalizer(true, false, true, false)
 	tk.WithNormalizer(bertNormalizer)
 
 	bertPreTokenizer := pretokenizer.NewBertPreTokenizer()
-- 
2.43.0


From 77c0b39526ae78e2341ac65b987bb724241696c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 70/76] fix: loading a preset leaves the working directory as
 it was

---
 pretrained/bert.go    | 7 ++++++-
 pretrained/roberta.go | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 7fecf8b..8921142 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -79,8 +79,13 @@ func BertBaseUncased() *tokenizer.Tokenizer {
 // Source:
 // https://cdn.huggingface.co/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt
 func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
-
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7760fcf..7bc800a 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -82,7 +82,13 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 // - vocab: "https://cdn.huggingface.co/deepset/roberta-base-squad2/vocab.json",
 // - merges: "https://cdn.huggingface.co/deepset/roberta-base-squad2/merges.txt",
 func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/roberta-base-squad2-vocab.json"
 	mergesFile := "model/roberta-base-squad2-merges.txt"
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
-- 
2.43.0


From e9d114fb59dbb3a728d629856e82494b329006a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 71/76] fix: the RoBERTa presets trim offsets as asked

---
 pretrained/roberta.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7bc800a..dacf287 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -55,7 +55,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
-	// postProcess.TrimOffsets(trimOffsets)
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
@@ -107,6 +108,8 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-- 
2.43.0


From 7cce9c9416128ae757132882e95059c94ea40c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 72/76] fix: the GPT-2 and RoBERTa presets decode the bytes of
 tokens

---
 pretrained/gpt2.go    | 4 +---
 pretrained/roberta.go | 7 ++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/pretrained/gpt2.go b/pretrained/gpt2.go
index 58c1b9c..ca8f459 100644
--- a/pretrained/gpt2.go
+++ b/pretrained/gpt2.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -56,8 +55,7 @@ func GPT2(addPrefixSpace bool, trimOffsets bool) *tokenizer.Tokenizer {
 	pprocessor := processor.NewByteLevelProcessing(pretok)
 	tk.WithPostProcessor(pprocessor)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(pretok)
 
 	return tk
 }
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index dacf287..abbfb0c 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -59,8 +58,7 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
@@ -112,8 +110,7 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
-- 
2.43.0


From f7512ae458ce93c6acfc3c0b278b0db545ab1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 73/76] fix: CachedDir is set once, and an unwritable one is an
 error of the call

---
 file-util.go |  6 +-----
 init.go      | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/file-util.go b/file-util.go
index e311fe8..a08e859 100644
--- a/file-util.go
+++ b/file-util.go
@@ -45,12 +45,8 @@ var (
 // Custom `CachedDir` can be changed by setting with environment `GO_TRANSFORMER`
 func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err error) {
 
-	if CachedDir == "NOT_SETTING" {
-		initCachePath()
-	}
-
 	// Resolves to "candidate" filename at `CacheDir`
-	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", CachedDir, modelNameOrPath, fileName)
+	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", getCachedDir(), modelNameOrPath, fileName)
 
 	// 1. Cached candidate file exists
 	if _, err := os.Stat(cachedFileCandidate); err == nil {
diff --git a/init.go b/init.go
index b6f49f1..cf0750f 100644
--- a/init.go
+++ b/init.go
@@ -4,13 +4,29 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"sync"
 )
 
 var (
 	CachedDir       string = "NOT_SETTING"
 	tokenizerEnvKey string = "GO_TOKENIZER"
+
+	// cachedDirMu guards the setting of CachedDir at its first use.
+	cachedDirMu sync.Mutex
 )
 
+// getCachedDir returns CachedDir, which is set at its first use if it was not before.
+func getCachedDir() string {
+	cachedDirMu.Lock()
+	defer cachedDirMu.Unlock()
+
+	if CachedDir == "NOT_SETTING" {
+		initCachePath()
+	}
+
+	return CachedDir
+}
+
 func initCachePath() {
 	// default path: {$HOME}/.cache/tokenizer
 	homeDir := os.Getenv("HOME")
@@ -28,8 +44,9 @@ func initEnv() {
 	}
 
 	if _, err := os.Stat(CachedDir); os.IsNotExist(err) {
+		// not fatal: writing to it later gives the error
 		if err := os.MkdirAll(CachedDir, 0755); err != nil {
-			log.Fatal(err)
+			log.Printf("WARNING: cannot create CachedDir: %v\n", err)
 		}
 	}
 }
-- 
2.43.0


From 2842643621e0180935a2879e8263ea42ab80e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 74/76] fix: a file which cannot be read is an error of Train

---
 tokenizer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index a617896..06a7bd9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -762,6 +762,12 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 	scanWG := new(sync.WaitGroup)
 
+	// first error when reading and processing the files
+	var (
+		scanErr  error
+		scanOnce sync.Once
+	)
+
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
@@ -801,10 +807,13 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 			scanWG.Add(1)
 
 			go func(n int, file string) {
+				defer scanWG.Done()
 				// start reading file chunk by chunk
-				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
+				if _, err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer); err != nil {
+					scanOnce.Do(func() { scanErr = err })
+					return
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
 			}(n, file)
 		}
 	}
@@ -837,6 +846,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	<-doneChan
 	close(doneChan)
 
+	if scanErr != nil {
+		return scanErr
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -865,10 +878,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 // channel: channel to send proccessed words to.
 // current: point of the file where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64, err error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return offset, err
 	}
 	defer file.Close()
 
@@ -879,7 +892,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		position--
 	}
 	if _, err := file.Seek(position, 0); err != nil { // 0 means relative to the origin of file
-		panic(err)
+		return position, err
 	}
 
 	scanner := bufio.NewScanner(file)
@@ -914,7 +927,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return position, fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
@@ -922,7 +935,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		if t.preTokenizer != nil {
 			pretokenized, err = t.doPreTokenize(pretok)
 			if err != nil {
-				log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+				return position, fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 			}
 		}
 
@@ -955,7 +968,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return position
+	return position, scanner.Err()
 }
 
 /*
-- 
2.43.0


From 0f8fcface6f9d3ab93675629b6c29e127fa71fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 75/76] fix: an encoding made of tokens has the given type id

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 45eff43..2874394 100644
--- a/encoding.go
+++ b/encoding.go
@@ -113,7 +113,7 @@ func NewEncodingFromTokens(tokens []Token, typeId int) (retVal *Encoding) {
 		toks = append(toks, t.Value)
 	}
 
-	typeIds := make([]int, len(tokens))
+	typeIds := util.Repeat(typeId, len(tokens))
 	// words := make([]int, len(tokens))
 	var words []int
 	specialTokenMask := util.Repeat(0, len(tokens))
-- 
2.43.0


From 4d69be2a8fef7d472a1639d271a195b80f505286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 76/76] fix: ranges in bytes and chars convert into each other

---
 normalizer/normalized.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1f60d7d..a5348b6 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1093,7 +1093,7 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 
 	var selectedChars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		if i >= byteRange[0] && i <= byteRange[1] {
 			selectedChars = append(selectedChars, byteIdxRune{
 				byteIdx: i,
@@ -1134,7 +1134,7 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 
 	var chars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		chars = append(chars, byteIdxRune{
 			byteIdx: i,
 			runeIdx: currRuneIdx,
@@ -1146,14 +1146,14 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 	if charRange[0] == charRange[1] {
 		for i := range chars {
 			if i == charRange[0] {
-				start = chars[i+1].byteIdx
-				end = chars[i+1].byteIdx
+				start = chars[i].byteIdx
+				end = chars[i].byteIdx
 			}
 		}
 	} else {
 		var selected []byteIdxRune
 		for _, c := range chars {
-			if c.byteIdx > charRange[0] && c.byteIdx <= charRange[1] {
+			if c.runeIdx >= charRange[0] && c.runeIdx < charRange[1] {
 				selected = append(selected, c)
 			}
 		}
-- 
2.43.0

