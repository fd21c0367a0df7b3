From 98f9f40523350d0d9923057b3351963aa6a8d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 01/46] fix: make decryption independent of earlier decryptions

The table of decoded points was extended with negative integers only while a
signed decryption happened to grow it, so that DecryptIntWithNeg of a negative
value failed (returned 0) once any larger value had been decrypted, and the
unsigned decryption of a negative value depended on the history.
---
 lib/crypto.go | 76 ++++++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 46 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..4b4064a 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -319,69 +319,53 @@ func DecryptCheckZeroVector(prikey kyber.Scalar, cipherVector *CipherVector) []i
 }
 
 // Brute-Forces the discrete log for integer decoding.
+// The table only holds the non-negative integers (a negative one is found through its opposite), such that what
+// was decrypted before does not influence the result.
 func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	B := SuiTe.Point().Base()
 
-	//check if the point is already in the table
 	mutex.Lock()
-	decrypted, ok := PointToInt.Get(P.String())
-	if ok == nil && decrypted != nil {
-		mutex.Unlock()
+	defer mutex.Unlock()
+
+	//check if the point (or its opposite) is already in the table
+	target := P.String()
+	if decrypted, err := PointToInt.Get(target); err == nil && decrypted != nil {
 		return decrypted.(int64), nil
 	}
+	targetNeg := ""
+	if checkNeg {
+		targetNeg = SuiTe.Point().Neg(P).String()
+		if decrypted, err := PointToInt.Get(targetNeg); err == nil && decrypted != nil {
+			return -decrypted.(int64), nil
+		}
+	}
 
 	//otherwise, we complete/create the table while decrypting
-	//initialise
-	if currentGreatestInt == 0 {
-		currentGreatestM = SuiTe.Point().Null()
-	}
-	foundPos := false
-	foundNeg := false
-	guess := currentGreatestM
-	guessInt := currentGreatestInt
-	guessNeg := SuiTe.Point().Null()
-	guessIntMinus := int64(0)
-
-	start := true
-	for i := guessInt; i < MaxHomomorphicInt && !foundPos && !foundNeg; i = i + 1 {
-		// check for 0 first
-		if !start {
-			guess = SuiTe.Point().Add(guess, B)
+	for currentGreatestM == nil || currentGreatestInt+1 < MaxHomomorphicInt {
+		guess := SuiTe.Point().Null()
+		guessInt := int64(0)
+		if currentGreatestM != nil {
+			guess.Add(currentGreatestM, B)
+			guessInt = currentGreatestInt + 1
 		}
-		start = false
 
-		guessInt = i
-		if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
+		guessStr := guess.String()
+		if _, err := PointToInt.Put(guessStr, guessInt); err != nil {
 			return -1, err
 		}
-		if checkNeg {
-			guessIntMinus = -guessInt
-			guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
-			if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
-				return -1, err
-			}
+		currentGreatestM = guess
+		currentGreatestInt = guessInt
 
-			if guessNeg.Equal(P) {
-				foundNeg = true
-			}
+		if guessStr == target {
+			return guessInt, nil
 		}
-		if !foundNeg && guess.Equal(P) {
-			foundPos = true
+		if checkNeg && guessStr == targetNeg {
+			return -guessInt, nil
 		}
 	}
-	currentGreatestM = guess
-	currentGreatestInt = guessInt
-	mutex.Unlock()
-
-	if !foundPos && !foundNeg {
-		log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
-		return 0, nil
-	}
 
-	if foundNeg {
-		return guessIntMinus, nil
-	}
-	return guessInt, nil
+	log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
+	return 0, nil
 }
 
 // CreateDecryptionTable generated the lookup table for decryption of all the integers in [-limit, limit]
-- 
2.43.0


From 6234966ffceb57c119783b15f6edb9ed89c037ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 02/46] fix: SplitScalar no longer changes the scalar it splits

---
 lib/crypto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 4b4064a..13b7543 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -115,11 +115,12 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	remainder := SuiTe.Scalar().Set(rootScalar)
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
-		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
+		remainder = remainder.Sub(remainder, allScalars[i])
 	}
-	allScalars = append(allScalars, rootScalar)
+	allScalars = append(allScalars, remainder)
 
 	return allScalars
 }
-- 
2.43.0


From e3a295083ec1ef4e46fb2407619227e2309eff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 03/46] fix: Acum of an empty vector is the null ciphertext
 instead of a panic

---
 lib/crypto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 13b7543..5fc5e68 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -443,8 +443,11 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 	return true
 }
 
-// Acum adds all elements in a ciphervector
+// Acum adds all elements in a ciphervector. The sum of an empty ciphervector is the null ciphertext.
 func (cv *CipherVector) Acum() CipherText {
+	if len(*cv) == 0 {
+		return *NewCipherText()
+	}
 	acum := (*cv)[0]
 	for i := 1; i < len(*cv); i++ {
 		acum.Add(acum, (*cv)[i])
-- 
2.43.0


From d4fb9b03634cf7ddd7066f2a0f79114c96b6ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 04/46] fix: decoders refuse malformed lengths with an error
 instead of crashing

---
 lib/crypto.go                                | 23 +++++++++++++--
 lib/key_switch/key_switch_proofs.go          |  3 ++
 lib/shuffle/shuffle_proofs.go                | 12 ++++++++
 lib/shuffle/structs.go                       |  6 ++++
 lib/structs.go                               | 31 ++++++++++++++++++++
 lib/tools/tools.go                           |  2 +-
 protocols/collective_aggregation_protocol.go |  8 +++++
 protocols/deterministic_tagging_protocol.go  |  3 ++
 protocols/shuffling+ddt_protocol.go          |  3 ++
 9 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 5fc5e68..22ff5d3 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -568,8 +568,11 @@ func (cv *CipherVector) ToBytes() ([]byte, int, error) {
 
 // FromBytes converts a byte array to a CipherVector. Note that you need to create the (empty) object beforehand.
 func (cv *CipherVector) FromBytes(data []byte, length int) error {
-	*cv = make(CipherVector, length)
 	cipherLength := 2 * SuiTe.PointLen()
+	if length < 0 || length > len(data)/cipherLength {
+		return fmt.Errorf("invalid ciphervector: %d bytes cannot contain %d ciphertexts", len(data), length)
+	}
+	*cv = make(CipherVector, length)
 	for i, pos := 0, 0; i < length*cipherLength; i, pos = i+cipherLength, pos+1 {
 		ct := CipherText{}
 		if err := ct.FromBytes(data[i : i+cipherLength]); err != nil {
@@ -597,6 +600,9 @@ func (c *CipherText) ToBytes() ([]byte, error) {
 
 // FromBytes converts a byte array to a CipherText. Note that you need to create the (empty) object beforehand.
 func (c *CipherText) FromBytes(data []byte) error {
+	if len(data) != CipherTextByteSize() {
+		return fmt.Errorf("invalid ciphertext: %d bytes instead of %d", len(data), CipherTextByteSize())
+	}
 	(*c).K = SuiTe.Point()
 	(*c).C = SuiTe.Point()
 	pointLength := SuiTe.PointLen()
@@ -704,6 +710,9 @@ func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
 	aps := make([]kyber.Point, 0)
 	pointLength := SuiTe.PointLen()
+	if len(target)%pointLength != 0 {
+		return nil, fmt.Errorf("invalid points: %d bytes is not a multiple of %d", len(target), pointLength)
+	}
 	for i := 0; i < len(target); i += pointLength {
 		ap := SuiTe.Point()
 		if err = ap.UnmarshalBinary(target[i : i+pointLength]); err != nil {
@@ -757,9 +766,19 @@ func ArrayCipherVectorToBytes(data []CipherVector) ([]byte, []byte, error) {
 
 // FromBytesToArrayCipherVector converts bytes to an array of CipherVector
 func FromBytesToArrayCipherVector(data []byte, cvLengthsByte []byte) ([]CipherVector, error) {
+	if len(cvLengthsByte)%4 != 0 {
+		return nil, fmt.Errorf("invalid ciphervectors: %d bytes of lengths", len(cvLengthsByte))
+	}
 	cvLengths := libunlynxtools.UnsafeCastBytesToInts(cvLengthsByte)
-	dataConverted := make([]CipherVector, len(cvLengths))
 	elementSize := CipherTextByteSize()
+	available := len(data) / elementSize
+	for _, length := range cvLengths {
+		if length < 0 || length > available {
+			return nil, fmt.Errorf("invalid ciphervectors: %d bytes are too few for the given lengths", len(data))
+		}
+		available -= length
+	}
+	dataConverted := make([]CipherVector, len(cvLengths))
 
 	var err error
 	mutex := sync.Mutex{}
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..1e0dd41 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -183,6 +183,9 @@ func (pksp *PublishedKSProof) FromBytes(pkspb PublishedKSProofBytes) error {
 	if err != nil {
 		return err
 	}
+	if len(data) != 5 {
+		return fmt.Errorf("invalid key switch proof: %d points instead of 5", len(data))
+	}
 	KVibKs2RbnegQ := data
 	pksp.K = KVibKs2RbnegQ[0]
 	pksp.ViB = KVibKs2RbnegQ[1]
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..1402307 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -1,6 +1,7 @@
 package libunlynxshuffle
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"sync"
@@ -475,6 +476,11 @@ func (psp *PublishedShufflingProof) ToBytes() (PublishedShufflingProofBytes, err
 
 // FromBytes transforms bytes back to PublishedShufflingProof
 func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes) error {
+	if pspb.OriginalList == nil || pspb.OriginalListLength == nil || pspb.ShuffledList == nil ||
+		pspb.ShuffledListLength == nil || pspb.G == nil || pspb.H == nil {
+		return errors.New("invalid shuffling proof: missing field")
+	}
+
 	var err error
 	psp.OriginalList, err = libunlynx.FromBytesToArrayCipherVector(*pspb.OriginalList, *pspb.OriginalListLength)
 	if err != nil {
@@ -489,12 +495,18 @@ func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes)
 	if err != nil {
 		return err
 	}
+	if len(g) != 1 {
+		return fmt.Errorf("invalid shuffling proof: %d points instead of 1 for G", len(g))
+	}
 	psp.G = g[0]
 
 	h, err := libunlynx.FromBytesToAbstractPoints(*pspb.H)
 	if err != nil {
 		return err
 	}
+	if len(h) != 1 {
+		return fmt.Errorf("invalid shuffling proof: %d points instead of 1 for H", len(h))
+	}
 	psp.H = h[0]
 	psp.HashProof = pspb.HashProof
 
diff --git a/lib/shuffle/structs.go b/lib/shuffle/structs.go
index 695222f..d8f3f9c 100644
--- a/lib/shuffle/structs.go
+++ b/lib/shuffle/structs.go
@@ -1,6 +1,8 @@
 package libunlynxshuffle
 
 import (
+	"fmt"
+
 	"github.com/ldsec/unlynx/lib"
 	"go.dedis.ch/kyber/v3"
 )
@@ -84,6 +86,10 @@ func DecodeCipherVectorScalar(eCV []CipherVectorScalarBytes) ([]CipherVectorScal
 		}
 
 		for _, el := range v.CipherV {
+			if len(el) != 2 {
+				return slice, fmt.Errorf("invalid ciphertext: %d points instead of 2", len(el))
+			}
+
 			k := libunlynx.SuiTe.Point()
 			if err := k.UnmarshalBinary(el[0]); err != nil {
 				return slice, err
diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..f6b7fc3 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -2,6 +2,7 @@
 package libunlynx
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -229,6 +230,24 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 // Marshal
 //______________________________________________________________________________________________________________________
 
+// checkLengths verifies that data is long enough to contain the given numbers of ciphertexts and (then) of bytes
+func checkLengths(data []byte, cipherTexts []int, bytes []int) error {
+	available := len(data)
+	for _, nbr := range cipherTexts {
+		if nbr < 0 || nbr > available/CipherTextByteSize() {
+			return fmt.Errorf("invalid response: %d bytes are too few for the given lengths", len(data))
+		}
+		available -= nbr * CipherTextByteSize()
+	}
+	for _, nbr := range bytes {
+		if nbr < 0 || nbr > available {
+			return fmt.Errorf("invalid response: %d bytes are too few for the given lengths", len(data))
+		}
+		available -= nbr
+	}
+	return nil
+}
+
 // ToBytes converts a Filtered to a byte array
 func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 	b := make([]byte, 0)
@@ -255,6 +274,9 @@ func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponse. Note that you need to create the (empty) object beforehand.
 func (cv *FilteredResponse) FromBytes(data []byte, aabLength, pgaebLength int) error {
+	if err := checkLengths(data, []int{aabLength, pgaebLength}, nil); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).GroupByEnc = make(CipherVector, pgaebLength)
 
@@ -293,6 +315,9 @@ func (crd *FilteredResponseDet) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *FilteredResponseDet) FromBytes(data []byte, gacbLength, aabLength, dtbgbLength int) error {
+	if err := checkLengths(data, []int{gacbLength, aabLength}, []int{dtbgbLength}); err != nil {
+		return err
+	}
 	(*crd).Fr.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).Fr.GroupByEnc = make(CipherVector, gacbLength)
 
@@ -348,6 +373,9 @@ func (cv *ProcessResponse) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a ProcessResponse. Note that you need to create the (empty) object beforehand.
 func (cv *ProcessResponse) FromBytes(data []byte, gacbLength, aabLength, pgaebLength int) error {
+	if err := checkLengths(data, []int{gacbLength, aabLength, pgaebLength}, nil); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).WhereEnc = make(CipherVector, pgaebLength)
 	(*cv).GroupByEnc = make(CipherVector, gacbLength)
@@ -399,6 +427,9 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 // FromBytes converts a byte array to a ProcessResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pgaebLength, dtbgbLength, dtbwLength int) error {
+	if err := checkLengths(data, []int{gacbLength, aabLength, pgaebLength}, []int{dtbgbLength, dtbwLength}); err != nil {
+		return err
+	}
 	(*crd).PR.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).PR.WhereEnc = make(CipherVector, pgaebLength)
 	(*crd).PR.GroupByEnc = make(CipherVector, gacbLength)
diff --git a/lib/tools/tools.go b/lib/tools/tools.go
index 0aa8f29..7eff031 100644
--- a/lib/tools/tools.go
+++ b/lib/tools/tools.go
@@ -45,7 +45,7 @@ func UnsafeCastIntsToBytes(ints []int) []byte {
 // UnsafeCastBytesToInts casts a slice of bytes to a slice of ints
 func UnsafeCastBytesToInts(bytes []byte) []int {
 	intsFinal := make([]int, 0)
-	for i := 0; i < len(bytes); i += 4 {
+	for i := 0; i+4 <= len(bytes); i += 4 {
 		x := binary.BigEndian.Uint32(bytes[i : i+4])
 		intsFinal = append(intsFinal, int(x))
 	}
diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..5d47fb6 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -387,10 +387,18 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 // FromBytes converts a byte array to a ChildAggregatedDataMessage. Note that you need to create the (empty) object beforehand.
 func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLength, dtbLength int) error {
 	cipherTextSize := libunlynx.CipherTextByteSize()
+	for _, length := range []int{gacbLength, aabLength, dtbLength} {
+		if length < 0 || (length > len(data) && len(data) > 0) {
+			return fmt.Errorf("invalid aggregated data: %d bytes for lengths %d, %d and %d", len(data), gacbLength, aabLength, dtbLength)
+		}
+	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
 
 	if elementLength != 0 && len(data) > 0 {
 		var nbrChildData int
+		if len(data)%elementLength != 0 {
+			return fmt.Errorf("invalid aggregated data: %d bytes is not a multiple of %d", len(data), elementLength)
+		}
 		nbrChildData = len(data) / elementLength
 
 		(*sm).ChildData = make([]libunlynx.FilteredResponseDet, nbrChildData)
diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..f02b1f4 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -383,6 +383,9 @@ func (dtm *DeterministicTaggingMessage) ToBytes() ([]byte, error) {
 // FromBytes converts a byte array to a DeterministicTaggingMessage. Note that you need to create the (empty) object beforehand.
 func (dtm *DeterministicTaggingMessage) FromBytes(data []byte) error {
 	elementSize := libunlynx.CipherTextByteSize()
+	if len(data)%elementSize != 0 {
+		return fmt.Errorf("invalid data to tag: %d bytes is not a multiple of %d", len(data), elementSize)
+	}
 	(*dtm).Data = make([]libunlynx.CipherText, len(data)/elementSize)
 
 	// iter over each value in the flatten data byte array
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..b889830 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -335,6 +335,9 @@ func (spddtm *ShufflingPlusDDTMessage) FromBytes(data []byte, shuffKey []byte, c
 	if err != nil {
 		return err
 	}
+	if len(dataP) != 1 {
+		return fmt.Errorf("invalid shuffling key: %d points instead of 1", len(dataP))
+	}
 	(*spddtm).ShuffKey = dataP[0]
 	return nil
 }
-- 
2.43.0


From 38b2de3727c7d85d4e31c4ba1161fae37d9dbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 05/46] fix: decode a ProcessResponseDet from exactly the bytes
 it was encoded to

---
 lib/structs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index f6b7fc3..a6352dd 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -443,12 +443,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if dtbwLength > 0 {
+		for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From 34d8597d62e672b6195e3498b197fa7bd389d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 06/46] fix: UnKey reads grouping attributes of several digits
 and negative ones

---
 lib/structs.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index a6352dd..0b417c7 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -209,19 +209,17 @@ func Key(ga []int64) GroupingKey {
 // UnKey permits to go from a tag non-encrypted grouping attributes to grouping attributes
 func UnKey(gk GroupingKey) ([]int64, error) {
 	tab := make([]int64, 0)
-	count := 0
-	nbrString := make([]string, 1)
+	number := ""
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			number += string(a)
 		} else {
-			key, err := strconv.Atoi(strings.Join(nbrString, ""))
+			key, err := strconv.ParseInt(number, 10, 64)
 			if err != nil {
 				return nil, err
 			}
-			tab = append(tab, int64(key))
-			nbrString = make([]string, 1)
-			count++
+			tab = append(tab, key)
+			number = ""
 		}
 	}
 	return tab, nil
-- 
2.43.0


From 558ae999ac597c8b7b0e46fb578b070c90f7eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 07/46] fix: refuse to encode aggregated data of different
 sizes instead of garbling it

---
 protocols/collective_aggregation_protocol.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 5d47fb6..1e94e24 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -8,6 +8,7 @@
 package protocolsunlynx
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"sync"
@@ -343,6 +344,7 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 	var gacbLength int
 	var aabLength int
 	var dtbLength int
+	known := false
 
 	wg := libunlynx.StartParallelize(len((*sm).ChildData))
 	var mutexCD sync.Mutex
@@ -364,11 +366,17 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 			}
 
 			mutexCD.Lock()
+			defer mutexCD.Unlock()
+			// the message has room for one length of each kind only
+			if known && (gacbLength != gacbAux || aabLength != aabAux || dtbLength != dtbAux) {
+				err = errors.New("cannot encode aggregated data whose groups have different sizes")
+				return
+			}
+			known = true
 			bb[i] = aux
 			gacbLength = gacbAux
 			aabLength = aabAux
 			dtbLength = dtbAux
-			mutexCD.Unlock()
 
 		}(i)
 	}
-- 
2.43.0


From c6a0ec70288e809b7a10a4479f541f90ef3eb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 08/46] fix: the root of a key switching waits for its own
 contribution

---
 protocols/key_switching_protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..1966138 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	rootReady        chan struct{} // closed once the root has computed its contribution
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		rootReady:        make(chan struct{}),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	close(p.rootReady)
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -202,6 +205,13 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 			p.ProofFunc(p.Public(), targetPublicKey, p.Private(), ks2s, rBNegs, vis)
 		}
 		p.NodeContribution = &switchedCiphers
+	} else {
+		// Dispatch runs as soon as the instance exists, possibly before Start
+		select {
+		case <-p.rootReady:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " was not started on time")
+		}
 	}
 
 	// 2. Ascending key switching phase
-- 
2.43.0


From 904909e8fc114ee8c6b3553fc69708587e5fa11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 09/46] fix: shuffling an empty list gives an empty list
 instead of a panic

---
 lib/shuffle/shuffle.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..fdcbb35 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -18,9 +18,12 @@ func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, preco
 	maxUint := ^uint(0)
 	maxInt := int(maxUint >> 1)
 
-	// number of elgamal pairs
-	NQ := len(inputList[0])
 	k := len(inputList) // number of clients
+	// number of elgamal pairs
+	NQ := 0
+	if k > 0 {
+		NQ = len(inputList[0])
+	}
 
 	rand := libunlynx.SuiTe.RandomStream()
 	// Pick a fresh (or precomputed) ElGamal blinding factor for each pair
-- 
2.43.0


From 2a5ab681363705a2a2e7436e8a83c102b11c3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 10/46] fix: use precomputed shuffling data only for the key
 and the size it is valid for

---
 lib/shuffle/shuffle.go | 100 +++++++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index fdcbb35..8aeabf7 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -2,6 +2,7 @@ package libunlynxshuffle
 
 import (
 	"crypto/cipher"
+	"fmt"
 	"math/big"
 	"os"
 	"sync"
@@ -25,6 +26,11 @@ func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, preco
 		NQ = len(inputList[0])
 	}
 
+	// a table made for other generators, or for narrower rows, would garble the data
+	if !usablePrecomputation(precomputed, g, h, NQ, 1) {
+		precomputed = nil
+	}
+
 	rand := libunlynx.SuiTe.RandomStream()
 	// Pick a fresh (or precomputed) ElGamal blinding factor for each pair
 	beta := make([][]kyber.Scalar, k)
@@ -102,6 +108,41 @@ func rerandomize(cv libunlynx.CipherVector, a, b kyber.Scalar, cipher libunlynx.
 // Precomputation
 //______________________________________________________________________________________________________________________
 
+// usablePrecomputation checks if a precomputed table can be used for lines of lineSize elements with the generators g and
+// h. In each line, it recomputes the nbrToCheck first elements.
+func usablePrecomputation(precomputed []CipherVectorScalar, g, h kyber.Point, lineSize, nbrToCheck int) bool {
+	if len(precomputed) == 0 {
+		return false
+	}
+
+	valid := make([]bool, len(precomputed))
+	wg := libunlynx.StartParallelize(len(precomputed))
+	for i := range precomputed {
+		go func(i int) {
+			defer wg.Done()
+			line := precomputed[i]
+			if len(line.S) < lineSize || len(line.S) != len(line.CipherV) {
+				return
+			}
+			for j := 0; j < nbrToCheck && j < len(line.S); j++ {
+				if !libunlynx.SuiTe.Point().Mul(line.S[j], g).Equal(line.CipherV[j].K) ||
+					!libunlynx.SuiTe.Point().Mul(line.S[j], h).Equal(line.CipherV[j].C) {
+					return
+				}
+			}
+			valid[i] = true
+		}(i)
+	}
+	libunlynx.EndParallelize(wg)
+
+	for _, v := range valid {
+		if !v {
+			return false
+		}
+	}
+	return true
+}
+
 // CreatePrecomputedRandomize creates precomputed values for shuffling using public key and size parameters
 func CreatePrecomputedRandomize(g, h kyber.Point, rand cipher.Stream, lineSize, nbrLines int) []CipherVectorScalar {
 	result := make([]CipherVectorScalar, nbrLines)
@@ -155,33 +196,31 @@ func PrecomputeForShuffling(serverName, gobFile string, surveySecret kyber.Scala
 // PrecomputationWritingForShuffling reads the precomputation data from  .gob file if it already exists or generates a new one
 func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string, surveySecret kyber.Scalar, collectiveKey kyber.Point, lineSize int) ([]CipherVectorScalar, error) {
 	log.Lvl1(serverName, " precomputes for shuffling")
-	var precomputeShuffle []CipherVectorScalar
 	if appFlag {
-		if _, err := os.Stat(gobFile); os.IsNotExist(err) {
-			precomputeShuffle, err = PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
-			if err != nil {
-				return nil, err
-			}
-		} else {
-			var encoded []CipherVectorScalarBytes
-			err := libunlynxtools.ReadFromGobFile(gobFile, &encoded)
-			if err != nil {
-				return nil, err
-			}
-
-			precomputeShuffle, err = DecodeCipherVectorScalar(encoded)
-			if err != nil {
-				return nil, err
-			}
+		precomputeShuffle, err := ReadPrecomputedFile(gobFile)
+		if err == nil && usablePrecomputation(precomputeShuffle, libunlynx.SuiTe.Point().Base(), collectiveKey, lineSize*2, 1) {
+			return precomputeShuffle, nil
 		}
-	} else {
-		scalarBytes, err := surveySecret.MarshalBinary()
-		if err != nil {
-			return nil, err
+		// missing, damaged, or made for another key or another size
+		return PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
+	}
+
+	scalarBytes, err := surveySecret.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+	return CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, 10), nil
+}
+
+// maxLineSize is the size of the longest line of a precomputed table
+func maxLineSize(precomputed []CipherVectorScalar) int {
+	max := 0
+	for _, line := range precomputed {
+		if len(line.S) > max {
+			max = len(line.S)
 		}
-		precomputeShuffle = CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, 10)
 	}
-	return precomputeShuffle, nil
+	return max
 }
 
 // ReadPrecomputedFile reads the precomputation data from a .gob file
@@ -192,7 +231,20 @@ func ReadPrecomputedFile(fileName string) ([]CipherVectorScalar, error) {
 		if err != nil {
 			return nil, err
 		}
-		return DecodeCipherVectorScalar(encoded)
+		precomputed, err := DecodeCipherVectorScalar(encoded)
+		if err != nil {
+			return nil, err
+		}
+
+		// all the elements have to be made for one and the same key
+		if maxLineSize(precomputed) == 0 || len(precomputed[0].S) == 0 || len(precomputed[0].CipherV) == 0 {
+			return nil, fmt.Errorf("no precomputed data in %s", fileName)
+		}
+		h := libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().Inv(precomputed[0].S[0]), precomputed[0].CipherV[0].C)
+		if !usablePrecomputation(precomputed, libunlynx.SuiTe.Point().Base(), h, 0, maxLineSize(precomputed)) {
+			return nil, fmt.Errorf("damaged precomputed data in %s", fileName)
+		}
+		return precomputed, nil
 	}
 	return nil, nil
 }
-- 
2.43.0


From c961caaf228c011141dc69d0c6dbb16175d3e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 11/46] fix: collective aggregation pairs each child's lengths
 with its own data, and sums vectors of different sizes

---
 lib/structs.go                               |  3 +
 protocols/collective_aggregation_protocol.go | 63 ++++++++++++--------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0b417c7..59ae9b1 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -136,6 +136,9 @@ func (crd *FilteredResponseDet) FormatAggregationProofs(res map[GroupingKey][]Ci
 	if _, ok := res[crd.DetTagGroupBy]; ok {
 		for i, ct := range crd.Fr.AggregatingAttributes {
 			container := res[crd.DetTagGroupBy]
+			if i == len(container) { // more attributes than in the responses before
+				container = append(container, CipherVector{})
+			}
 			container[i] = append(container[i], ct)
 			res[crd.DetTagGroupBy] = container
 		}
diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 1e94e24..802e247 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -10,7 +10,6 @@ package protocolsunlynx
 import (
 	"errors"
 	"fmt"
-	"math"
 	"sync"
 	"time"
 
@@ -212,18 +211,20 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	roundTotComput := libunlynx.StartTimer(p.Name() + "_CollectiveAggregation(ascendingAggregation)")
 
 	if !p.IsLeaf() {
-		length := make([]cadmbLengthStruct, 0)
+		// the two messages of each child can arrive in different orders
+		length := make(map[onet.TreeNodeID]cadmbLengthStruct)
 		for _, v := range <-p.LengthNodeChannel {
-			length = append(length, v)
-		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+			length[v.TreeNode.ID] = v
 		}
 
-		for i, v := range length {
+		for _, data := range <-p.ChildDataChannel {
+			v, ok := length[data.TreeNode.ID]
+			if !ok {
+				return nil, fmt.Errorf("no lengths received from %v", data.TreeNode.ServerIdentity)
+			}
+
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(data.Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
@@ -238,21 +239,7 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 				}
 
 				if ok {
-					if len(localAggr.AggregatingAttributes) != len(aggr.Fr.AggregatingAttributes) {
-						encZeros := make(libunlynx.CipherVector, int(math.Abs(float64(len(localAggr.AggregatingAttributes)-len(aggr.Fr.AggregatingAttributes)))))
-						for e := range encZeros {
-							encZeros[e] = *libunlynx.EncryptInt(p.Roster().Aggregate, 0)
-						}
-						if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
-							aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
-						} else {
-							localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
-						}
-					}
-					cv := libunlynx.NewCipherVector(len(localAggr.AggregatingAttributes))
-					cv.Add(localAggr.AggregatingAttributes, aggr.Fr.AggregatingAttributes)
-
-					localAggr.AggregatingAttributes = *cv
+					localAggr.AggregatingAttributes = addVectors(localAggr.AggregatingAttributes, aggr.Fr.AggregatingAttributes)
 				} else {
 					localAggr = aggr.Fr
 				}
@@ -276,6 +263,7 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 			detAggrResponses[count].Fr = v
 			count++
 		}
+		p.padAggregates(detAggrResponses)
 
 		message := ChildAggregatedDataBytesMessage{}
 
@@ -304,6 +292,33 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	return p.GroupedData, nil
 }
 
+// addVectors adds two vectors, whose sizes can be different, into a new one
+func addVectors(cv1, cv2 libunlynx.CipherVector) libunlynx.CipherVector {
+	if len(cv1) < len(cv2) {
+		cv1, cv2 = cv2, cv1
+	}
+	sum := libunlynx.NewCipherVector(len(cv2))
+	sum.Add(cv1[:len(cv2)], cv2)
+	return append(*sum, cv1[len(cv2):]...)
+}
+
+// padAggregates completes the vectors with encryptions of zero, to send vectors of one size
+func (p *CollectiveAggregationProtocol) padAggregates(responses []libunlynx.FilteredResponseDet) {
+	max := 0
+	for _, v := range responses {
+		if len(v.Fr.AggregatingAttributes) > max {
+			max = len(v.Fr.AggregatingAttributes)
+		}
+	}
+	for i := range responses {
+		padded := append(libunlynx.CipherVector{}, responses[i].Fr.AggregatingAttributes...)
+		for len(padded) < max {
+			padded = append(padded, *libunlynx.EncryptInt(p.Roster().Aggregate, 0))
+		}
+		responses[i].Fr.AggregatingAttributes = padded
+	}
+}
+
 // Setup and return the data needed in the aggregation to a usable format
 func (p *CollectiveAggregationProtocol) checkData() error {
 	// If no data is passed to the collection protocol
-- 
2.43.0


From 28fc799f9149b0493de47ecadb62bb344ab578f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 12/46] fix: the store gives each response out exactly once,
 under concurrent submissions

---
 lib/store/store.go  | 23 +++++++++++++++++++----
 services/service.go |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..218ccca 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -70,6 +70,9 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearGrp := make([]int64, 0)
 	clearWhr := make([]int64, 0)
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	noEnc := cr.WhereEnc == nil && cr.GroupByEnc == nil
 	clearGrp, newResp.GroupByEnc = proccessParameters(groupBy, cr.GroupByClear, cr.GroupByEnc, noEnc)
 
@@ -104,28 +107,38 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 
 // HasNextDpResponse permits to verify if there are new DP responses to be processed.
 func (s *Store) HasNextDpResponse() bool {
-	return len(s.DpResponses) > 0
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+	return len(s.DpResponses) > 0 || len(s.DpResponsesAggr) > 0
 }
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	//clear tables (the caller keeps the old ones)
+	s.DpResponses = nil
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
 // PushShuffledProcessResponses stores shuffled responses
 func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libunlynx.ProcessResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	s.ShuffledProcessResponses = append(s.ShuffledProcessResponses, newShuffledProcessResponses...)
 }
 
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
@@ -161,6 +174,8 @@ func (s *Store) HasNextAggregatedResponse() bool {
 
 // PullLocallyAggregatedResponses permits to get the result of the collective and grouped aggregation
 func (s *Store) PullLocallyAggregatedResponses() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	LocGroupingAggregatingReturn := s.LocAggregatedProcessResponse
 	s.LocAggregatedProcessResponse = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 	return LocGroupingAggregatingReturn
@@ -291,7 +306,7 @@ func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	results := s.DeliverableResults
-	s.DeliverableResults = s.DeliverableResults[:0]
+	s.DeliverableResults = nil
 
 	if diffPri {
 		for _, v := range results {
diff --git a/services/service.go b/services/service.go
index dddecc0..25eab72 100644
--- a/services/service.go
+++ b/services/service.go
@@ -716,7 +716,7 @@ func (s *Service) ShufflingPhase(targetSurvey SurveyID) error {
 		return err
 	}
 
-	if len(survey.DpResponses) == 0 && len(survey.DpResponsesAggr) == 0 {
+	if !survey.HasNextDpResponse() {
 		log.Lvl1(s.ServerIdentity(), " no data to shuffle")
 		return nil
 	}
-- 
2.43.0


From 6b628433f47fe571a1584051290d2c4906615778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 13/46] fix: the noise of a differentially private survey
 reaches the released totals

---
 lib/store/store.go  | 23 +++++++++++++----------
 services/service.go |  5 +++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 218ccca..17f43a5 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -288,11 +288,7 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(aggregatedResults, noise)
 	}
 
 	return aggregatedResults
@@ -309,16 +305,23 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = nil
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(results, noise)
 	}
 
 	return results
 }
 
+// addNoise adds the noise to every aggregating attribute
+func addNoise(results []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
+	for i := range results {
+		noisy := libunlynx.NewCipherVector(len(results[i].AggregatingAttributes))
+		for j, aggr := range results[i].AggregatingAttributes {
+			(*noisy)[j].Add(aggr, noise)
+		}
+		results[i].AggregatingAttributes = *noisy
+	}
+}
+
 // DisplayResults shows results and is useful for debugging.
 func (s *Store) DisplayResults() {
 	for _, v := range s.DeliverableResults {
diff --git a/services/service.go b/services/service.go
index 25eab72..101e337 100644
--- a/services/service.go
+++ b/services/service.go
@@ -534,6 +534,11 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			var toShuffleCV []libunlynx.CipherVector
 			toShuffleCV, survey.Lengths = protocolsunlynx.ProcessResponseToMatrixCipherText(clientResponses)
 			shuffle.ShuffleTarget = &toShuffleCV
+
+			err = s.putSurvey(target, survey)
+			if err != nil {
+				return nil, err
+			}
 		}
 		return pi, nil
 
-- 
2.43.0


From 0ef384d619bbaf9a06f71e19c30ebed31919465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 14/46] fix: a protocol that fails in a service is logged
 instead of crashing the server

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index 101e337..256bc37 100644
--- a/services/service.go
+++ b/services/service.go
@@ -611,12 +611,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + pname + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + pname + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From 2d85fcc44627eea6455dc355d49fd7a1e08db1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 15/46] fix: concurrent surveys no longer deadlock in the
 aggregation phase

---
 services/service.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index 256bc37..11ea63a 100644
--- a/services/service.go
+++ b/services/service.go
@@ -503,9 +503,13 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return &proof
 		}
 
-		counter := len(tn.Roster().List) - 1
-		for counter > 0 {
-			counter = counter - (<-survey.DDTChannel)
+		// the root only starts once everyone is done; the other nodes must not wait here, as this blocks the reception
+		// of all other protocol messages (of this and of other surveys)
+		if tn.IsRoot() {
+			counter := len(tn.Roster().List) - 1
+			for counter > 0 {
+				counter = counter - (<-survey.DDTChannel)
+			}
 		}
 
 	case protocolsunlynx.DROProtocolName:
-- 
2.43.0


From 2d86b2d2f5bd47de86c794799b62be72c131c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 16/46] fix: a submission never undoes another change of the
 survey, blocks or is half stored

---
 services/service.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/services/service.go b/services/service.go
index 11ea63a..c5fe026 100644
--- a/services/service.go
+++ b/services/service.go
@@ -213,16 +213,16 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// nothing is stored if one of the responses is malformed
+	drs := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := drs[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
-		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
+	for _, dr := range drs {
+		// the store is shared by all the copies of the survey
+		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
@@ -342,8 +342,8 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 		return nil, err
 	}
 
-	//number of data providers who have already pushed the data
-	survey.DpChannel <- 1
+	//number of data providers who have already pushed the data (the data provider does not wait for the survey to be executed)
+	go func() { survey.DpChannel <- 1 }()
 	return &ServiceState{"1"}, nil
 }
 
-- 
2.43.0


From 8c0b00e7bfd3c32a7e49b2df140a0b578facbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 17/46] fix: refuse invalid predicates, rosters and keys
 instead of crashing on them

---
 services/service.go | 92 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 89 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index c5fe026..81d34a3 100644
--- a/services/service.go
+++ b/services/service.go
@@ -232,10 +232,38 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 // Query Handlers
 //______________________________________________________________________________________________________________________
 
+// checkSurveyCreationQuery verifies that a survey can be executed as it is asked
+func (s *Service) checkSurveyCreationQuery(recq *SurveyCreationQuery) error {
+	member := false
+	for _, si := range recq.Roster.List {
+		if si == nil || si.Public == nil {
+			return fmt.Errorf("invalid roster: server without a public key")
+		}
+		member = member || si.ID.Equal(s.ServerIdentity().ID)
+	}
+	if !member || recq.Roster.Aggregate == nil {
+		return fmt.Errorf("invalid roster: server " + s.ServerIdentity().String() + " or the collective key is missing")
+	}
+
+	for _, w := range recq.Where {
+		if w.Value.K == nil || w.Value.C == nil {
+			return fmt.Errorf("invalid where attribute: " + w.Name + " has no value")
+		}
+	}
+	if recq.Predicate != "" {
+		return checkPredicate(recq.Predicate, len(recq.Where))
+	}
+	return nil
+}
+
 // HandleSurveyCreationQuery handles the reception of a survey creation query by instantiating the corresponding survey.
 func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity().String(), " received a Survey Creation Query")
 
+	if err := s.checkSurveyCreationQuery(recq); err != nil {
+		return nil, err
+	}
+
 	// if this server is the one receiving the query from the client
 	if !recq.IntraMessage {
 		id := uuid.NewV4()
@@ -351,6 +379,10 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity(), " received a survey result query")
 
+	if resq.ClientPublic == nil {
+		return nil, fmt.Errorf("missing public key in the survey result query")
+	}
+
 	survey, err := s.getSurvey(resq.SurveyID)
 	if err != nil {
 		return nil, err
@@ -791,7 +823,7 @@ func (s *Service) TaggingPhase(targetSurvey SurveyID) error {
 	deterministicTaggingResult = deterministicTaggingResult[len(survey.Query.Where):]
 
 	var filteredResponses []libunlynx.FilteredResponseDet
-	if survey.Query.Predicate == "" || len(queryWhereTag) == 0 {
+	if survey.Query.Predicate == "" {
 		filteredResponses = FilterNone(deterministicTaggingResult)
 	} else {
 		filteredResponses = FilterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
@@ -881,6 +913,56 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 // Support Functions
 //______________________________________________________________________________________________________________________
 
+// checkPredicate verifies that a predicate is a boolean expression over the parameters of the where attributes
+func checkPredicate(pred string, nbrWhere int) error {
+	expression, err := govaluate.NewEvaluableExpression(pred)
+	if err != nil {
+		return fmt.Errorf("invalid predicate: %v", err)
+	}
+	// evaluates it with each attribute being equal to or different from the one in the query (up to a maximum of combinations)
+	parameters := make(map[string]interface{}, 2*nbrWhere)
+	for _, name := range expression.Vars() {
+		parameters[name] = nil
+	}
+	for i := 0; i < 2*nbrWhere; i++ {
+		delete(parameters, "v"+strconv.Itoa(i))
+	}
+	for name := range parameters {
+		return fmt.Errorf("invalid predicate: unknown parameter " + name)
+	}
+	for combination := 0; combination < 1<<12 && combination>>uint(nbrWhere) == 0; combination++ {
+		for i := 0; i < nbrWhere; i++ {
+			parameters["v"+strconv.Itoa(2*i)] = "q" + strconv.Itoa(i)
+			parameters["v"+strconv.Itoa(2*i+1)] = "q" + strconv.Itoa(i)
+			if combination>>uint(i)&1 == 1 {
+				parameters["v"+strconv.Itoa(2*i+1)] = "r" + strconv.Itoa(i)
+			}
+		}
+		if _, err := evaluatePredicate(expression, parameters); err != nil {
+			return fmt.Errorf("invalid predicate: %v", err)
+		}
+	}
+	return nil
+}
+
+// evaluatePredicate evaluates an expression which has to be boolean
+func evaluatePredicate(expression *govaluate.EvaluableExpression, parameters map[string]interface{}) (keep bool, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			keep, err = false, fmt.Errorf("%v", r)
+		}
+	}()
+	result, err := expression.Evaluate(parameters)
+	if err != nil {
+		return false, err
+	}
+	keep, ok := result.(bool)
+	if !ok {
+		return false, fmt.Errorf("the result is not a boolean")
+	}
+	return keep, nil
+}
+
 // FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions
 func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
 	var result []libunlynx.FilteredResponseDet
@@ -901,8 +983,12 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 			}
 
 		}
-		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		keep, err := evaluatePredicate(expression, parameters)
+		if err != nil {
+			log.Error("cannot evaluate the predicate: ", err)
+			continue
+		}
+		if keep {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-- 
2.43.0


From 45bd0ec6984e2db5772fb46e8a87014106f1bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 18/46] fix: refuse a second results query and late responses
 instead of blocking or losing them

---
 services/service.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/services/service.go b/services/service.go
index 81d34a3..215f4eb 100644
--- a/services/service.go
+++ b/services/service.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"golang.org/x/xerrors"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Knetic/govaluate"
@@ -66,6 +67,15 @@ type Survey struct {
 	DDTChannel    chan int // To wait for all nodes to finish the tagging before continuing
 
 	Noise libunlynx.CipherText
+
+	progress *progress
+}
+
+// progress tells how far a survey is, it is shared by all the copies of the survey
+type progress struct {
+	sync.Mutex
+	requested bool // the results were asked for
+	closed    bool // no more responses are accepted
 }
 
 // MsgTypes defines the Message Type ID for all the service's intra-messages.
@@ -220,6 +230,11 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 			return err
 		}
 	}
+	survey.progress.Lock()
+	defer survey.progress.Unlock()
+	if survey.progress.closed {
+		return fmt.Errorf("survey " + string(resp.SurveyID) + " does not accept responses anymore")
+	}
 	for _, dr := range drs {
 		// the store is shared by all the copies of the survey
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
@@ -293,6 +308,8 @@ func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.
 		SurveyChannel: make(chan int, 100),
 		DpChannel:     make(chan int, 100),
 		DDTChannel:    make(chan int, 100),
+
+		progress: &progress{},
 	})
 	if err != nil {
 		return nil, err
@@ -388,6 +405,14 @@ func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Me
 		return nil, err
 	}
 
+	survey.progress.Lock()
+	requested := survey.progress.requested
+	survey.progress.requested = true
+	survey.progress.Unlock()
+	if requested {
+		return nil, fmt.Errorf("the results of survey " + string(resq.SurveyID) + " were already asked for")
+	}
+
 	survey.Query.ClientPubKey = resq.ClientPublic
 	err = s.putSurvey(resq.SurveyID, survey)
 	if err != nil {
@@ -680,6 +705,10 @@ func (s *Service) StartService(targetSurvey SurveyID, root bool) error {
 
 	log.Lvl1(s.ServerIdentity(), " starts a UnLynx Protocol for survey ", targetSurvey)
 
+	survey.progress.Lock()
+	survey.progress.closed = true
+	survey.progress.Unlock()
+
 	target, err := s.getSurvey(targetSurvey)
 	if err != nil {
 		return err
-- 
2.43.0


From 5290110b47f7322cf51c397ce3c3970c18db058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 19/46] fix: a client can no longer pass for a server

---
 services/service.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/services/service.go b/services/service.go
index 215f4eb..32963ff 100644
--- a/services/service.go
+++ b/services/service.go
@@ -173,12 +173,6 @@ func NewService(c *onet.Context) (onet.Service, error) {
 	if cerr = newUnLynxInstance.RegisterHandler(newUnLynxInstance.HandleSurveyResultsQuery); cerr != nil {
 		return nil, fmt.Errorf("wrong Handler: %v", cerr)
 	}
-	if cerr = newUnLynxInstance.RegisterHandler(newUnLynxInstance.HandleDDTfinished); cerr != nil {
-		return nil, fmt.Errorf("wrong Handler: %v", cerr)
-	}
-	if cerr = newUnLynxInstance.RegisterHandler(newUnLynxInstance.HandleQueryBroadcastFinished); cerr != nil {
-		return nil, fmt.Errorf("wrong Handler: %v", cerr)
-	}
 
 	c.RegisterProcessor(newUnLynxInstance, msgTypes.msgSurveyCreationQuery)
 	c.RegisterProcessor(newUnLynxInstance, msgTypes.msgSurveyResultsQuery)
@@ -191,13 +185,13 @@ func NewService(c *onet.Context) (onet.Service, error) {
 func (s *Service) Process(msg *network.Envelope) {
 	if msg.MsgType.Equal(msgTypes.msgSurveyCreationQuery) {
 		msgSurveyCreationQuery := (msg.Msg).(*SurveyCreationQuery)
-		_, err := s.HandleSurveyCreationQuery(msgSurveyCreationQuery)
+		_, err := s.createSurvey(msgSurveyCreationQuery)
 		if err != nil {
 			log.Error(err)
 		}
 	} else if msg.MsgType.Equal(msgTypes.msgSurveyResultsQuery) {
 		msgSurveyResultsQuery := (msg.Msg).(*SurveyResultsQuery)
-		_, err := s.HandleSurveyResultsQuery(msgSurveyResultsQuery)
+		_, err := s.executeSurvey(msgSurveyResultsQuery)
 		if err != nil {
 			log.Error(err)
 		}
@@ -273,6 +267,13 @@ func (s *Service) checkSurveyCreationQuery(recq *SurveyCreationQuery) error {
 
 // HandleSurveyCreationQuery handles the reception of a survey creation query by instantiating the corresponding survey.
 func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.Message, error) {
+	if recq.IntraMessage {
+		return nil, fmt.Errorf("only a server can send an intra-message")
+	}
+	return s.createSurvey(recq)
+}
+
+func (s *Service) createSurvey(recq *SurveyCreationQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity().String(), " received a Survey Creation Query")
 
 	if err := s.checkSurveyCreationQuery(recq); err != nil {
@@ -394,6 +395,13 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 
 // HandleSurveyResultsQuery handles the survey result query by the surveyor.
 func (s *Service) HandleSurveyResultsQuery(resq *SurveyResultsQuery) (network.Message, error) {
+	if resq.IntraMessage {
+		return nil, fmt.Errorf("only a server can send an intra-message")
+	}
+	return s.executeSurvey(resq)
+}
+
+func (s *Service) executeSurvey(resq *SurveyResultsQuery) (network.Message, error) {
 	log.Lvl1(s.ServerIdentity(), " received a survey result query")
 
 	if resq.ClientPublic == nil {
-- 
2.43.0


From 778a3cce0ff3aa3430e06e17d9671b4172d3f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 20/46] fix: creating a survey with an unreachable server fails
 instead of blocking forever

---
 services/service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index 32963ff..aa37253 100644
--- a/services/service.go
+++ b/services/service.go
@@ -371,8 +371,14 @@ func (s *Service) createSurvey(recq *SurveyCreationQuery) (network.Message, erro
 		}
 
 		counter := len(recq.Roster.List) - 1
+		timeout := time.After(libunlynx.TIMEOUT)
 		for counter > 0 {
-			counter = counter - (<-survey.SurveyChannel)
+			select {
+			case ack := <-survey.SurveyChannel:
+				counter = counter - ack
+			case <-timeout:
+				return nil, fmt.Errorf(s.ServerIdentity().String() + " didn't get all the confirmations of the survey creation on time")
+			}
 		}
 	}
 	return &ServiceState{recq.SurveyID}, nil
-- 
2.43.0


From f21ce2f3d002cb7e34bf251723198816d9f16cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 21/46] fix: refuse predicates of millions of characters, which
 overflow the stack

---
 services/service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index aa37253..74d25d0 100644
--- a/services/service.go
+++ b/services/service.go
@@ -28,6 +28,9 @@ import (
 // ServiceName is the registered name for the unlynx service.
 const ServiceName = "UnLynx"
 
+// maxPredicateSize bounds the size of a predicate, as it is parsed and evaluated recursively
+const maxPredicateSize = 1 << 16
+
 const gobFile = "pre_compute_multiplications.gob"
 
 // SurveyID unique ID for each survey.
@@ -958,6 +961,9 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 
 // checkPredicate verifies that a predicate is a boolean expression over the parameters of the where attributes
 func checkPredicate(pred string, nbrWhere int) error {
+	if len(pred) > maxPredicateSize {
+		return fmt.Errorf("invalid predicate: too long")
+	}
 	expression, err := govaluate.NewEvaluableExpression(pred)
 	if err != nil {
 		return fmt.Errorf("invalid predicate: %v", err)
@@ -973,7 +979,7 @@ func checkPredicate(pred string, nbrWhere int) error {
 	for name := range parameters {
 		return fmt.Errorf("invalid predicate: unknown parameter " + name)
 	}
-	for combination := 0; combination < 1<<12 && combination>>uint(nbrWhere) == 0; combination++ {
+	for combination := 0; combination < 1<<10 && combination>>uint(nbrWhere) == 0; combination++ {
 		for i := 0; i < nbrWhere; i++ {
 			parameters["v"+strconv.Itoa(2*i)] = "q" + strconv.Itoa(i)
 			parameters["v"+strconv.Itoa(2*i+1)] = "q" + strconv.Itoa(i)
-- 
2.43.0


From e8cfd865a4f114e48648bca15fe4a5904f13e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 22/46] fix: refuse rosters with the same server twice, whose
 surveys never complete

---
 services/service.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index 74d25d0..ca50316 100644
--- a/services/service.go
+++ b/services/service.go
@@ -246,14 +246,17 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 
 // checkSurveyCreationQuery verifies that a survey can be executed as it is asked
 func (s *Service) checkSurveyCreationQuery(recq *SurveyCreationQuery) error {
-	member := false
+	members := make(map[network.ServerIdentityID]bool)
 	for _, si := range recq.Roster.List {
 		if si == nil || si.Public == nil {
 			return fmt.Errorf("invalid roster: server without a public key")
 		}
-		member = member || si.ID.Equal(s.ServerIdentity().ID)
+		if members[si.ID] {
+			return fmt.Errorf("invalid roster: server " + si.String() + " appears twice")
+		}
+		members[si.ID] = true
 	}
-	if !member || recq.Roster.Aggregate == nil {
+	if !members[s.ServerIdentity().ID] || recq.Roster.Aggregate == nil {
 		return fmt.Errorf("invalid roster: server " + s.ServerIdentity().String() + " or the collective key is missing")
 	}
 
-- 
2.43.0


From 93b6a93f9203b2021146fbf2c30c4df8ead1ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 23/46] fix: verify a part of a list of add/remove proofs
 without going out of range

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From dad01145822950a961c9d5db87ba4ce87f0a7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 24/46] fix: reject add/remove proofs whose ciphertexts differ
 in the first component, and incomplete ones

---
 lib/add_rm/add_rm_proofs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..965e5cb 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,16 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	if cp.CtBef.K == nil || cp.CtBef.C == nil || cp.CtAft.K == nil || cp.CtAft.C == nil || cp.RB == nil || K == nil {
+		log.Error("---------Verifier: incomplete proof")
+		return false
+	}
+	// only the second component changes
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: the first components of the ciphertexts differ")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From a8d092884a7e3f7cbdd01d5bf5cec625341c79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 25/46] fix: bind all points of a tag creation proof, reject
 incomplete ones and report the errors of the prover

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..ea4f0f6 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -102,7 +102,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
@@ -127,6 +127,16 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 
 // DeterministicTagCrProofVerification verifies a deterministic tag proof for one ciphertext
 func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB kyber.Point) bool {
+	if prf.Ciminus11Si == nil || prf.CTbef.K == nil || prf.CTbef.C == nil || prf.CTaft.K == nil || prf.CTaft.C == nil || K == nil || SB == nil {
+		log.Error("---------Verifier: incomplete proof")
+		return false
+	}
+	// the predicate does not bind this point: it has to be -s*CTbef.K
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(prf.CTaft.K)) {
+		log.Error("---------Verifier: Ciminus11Si does not correspond to the ciphertext")
+		return false
+	}
+
 	predicate := createPredicateDeterministicTagCr()
 	B := libunlynx.SuiTe.Point().Base()
 	ci1 := prf.CTaft.K
-- 
2.43.0


From 13a5c183ce88633b56c9d3dc747dc1cb4b56b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 26/46] fix: prove each tag addition of a list, and accept
 decoded tag addition proofs

---
 .../deterministic_tag_proofs.go                 | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index ea4f0f6..259b7fd 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -219,10 +218,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -231,7 +230,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
@@ -245,20 +244,22 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 
 // DeterministicTagAdditionProofVerification verifies a deterministic tag addition proof
 func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) bool {
+	if psap.C1 == nil || psap.C2 == nil || psap.R == nil {
+		log.Error("---------Verifier: incomplete proof")
+		return false
+	}
+
 	predicate := createPredicateDeterministicTagAddition()
 	B := libunlynx.SuiTe.Point().Base()
 	pval := map[string]kyber.Point{"B": B, "c1": psap.C1, "c2": psap.C2, "r": psap.R}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-	partProof := false
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, psap.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
 
-	partProof = true
-
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 7e2eff723d011ed01ac4a8774046f75d66724405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 27/46] fix: reject incomplete key switch and aggregation
 proofs, and do not hang when a key switch cannot be proved

---
 lib/aggregation/aggregation_proofs.go | 9 +++++++++
 lib/key_switch/key_switch_proofs.go   | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/aggregation/aggregation_proofs.go b/lib/aggregation/aggregation_proofs.go
index 3658644..f211f4e 100644
--- a/lib/aggregation/aggregation_proofs.go
+++ b/lib/aggregation/aggregation_proofs.go
@@ -61,6 +61,15 @@ func AggregationListProofCreation(data []libunlynx.CipherVector, aggregationResu
 
 // AggregationProofVerification verifies an aggregation proof
 func AggregationProofVerification(pap PublishedAggregationProof) bool {
+	if pap.AggregationResult.K == nil || pap.AggregationResult.C == nil {
+		return false
+	}
+	for _, v := range pap.Data {
+		if v.K == nil || v.C == nil {
+			return false
+		}
+	}
+
 	expected := pap.Data.Acum()
 	return expected.Equal(&pap.AggregationResult)
 }
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index 1e0dd41..fd105a0 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -100,6 +100,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg2.Add(1)
 		go func(i int, Q kyber.Point, k kyber.Scalar) {
+			defer wg2.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				proofAux, tmpErr := KeySwitchProofCreation(K, Q, k, viBs[i+j], ks2s[i+j], rBNegs[i+j], vis[i+j])
 				if tmpErr != nil {
@@ -110,7 +111,6 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 				}
 				plop.List[i+j] = proofAux
 			}
-			defer wg2.Done()
 		}(i, Q, k)
 
 	}
@@ -125,6 +125,11 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 
 // KeySwitchProofVerification verifies a key switch proof for one ciphertext
 func KeySwitchProofVerification(pop PublishedKSProof) bool {
+	if pop.K == nil || pop.ViB == nil || pop.Ks2 == nil || pop.RbNeg == nil || pop.Q == nil {
+		log.Error("---------Verifier: incomplete proof")
+		return false
+	}
+
 	predicate := createPredicateKeySwitch()
 	pval := map[string]kyber.Point{"K": pop.K, "viB": pop.ViB, "ks2": pop.Ks2, "rBNeg": pop.RbNeg, "Q": pop.Q}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-- 
2.43.0


From 3f605719e7ba3d76c95b7a23a6668527b248f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 28/46] fix: combine the columns of a shuffle proof with
 factors that depend on all of its input and output

---
 lib/shuffle/shuffle_proofs.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 1402307..2bdde36 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"strconv"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -46,7 +47,7 @@ type PublishedShufflingListProof struct {
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
-	e, err := CipherVectorComputeE(h, originalList[0])
+	e, err := columnFactors(h, originalList, shuffledList)
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -138,7 +139,7 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
-	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
+	e, err := columnFactors(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -218,6 +219,31 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// columnFactors computes the factors with which the ciphertexts of a row are combined. They depend on the entire input and
+// output of the shuffle: if they were known beforehand, one could choose an output with differences that cancel out.
+func columnFactors(seed kyber.Point, originalList, shuffledList []libunlynx.CipherVector) ([]kyber.Scalar, error) {
+	seedBytes, err := seed.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
+	hash := libunlynx.SuiTe.XOF(seedBytes)
+	for _, list := range [][]libunlynx.CipherVector{originalList, shuffledList} {
+		data, lengths, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := hash.Write(lengths); err != nil {
+			return nil, err
+		}
+		if _, err := hash.Write(data); err != nil {
+			return nil, err
+		}
+	}
+
+	return CipherVectorComputeE(libunlynx.SuiTe.Point().Pick(hash), originalList[0])
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
@@ -275,6 +301,9 @@ func computeE(index int, cv libunlynx.CipherVector, seed []byte) (kyber.Scalar,
 		return nil, err
 	}
 
+	if _, err := randomCipher.Write([]byte(strconv.Itoa(index) + ":")); err != nil {
+		return nil, err
+	}
 	if _, err := randomCipher.Write(dataC); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4c30ae15394db2f2de24568c50bfd05466207d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 29/46] fix: reject shuffle proofs made for another key or with
 malformed lists

---
 lib/shuffle/shuffle_proofs.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 2bdde36..e9b0692 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -139,6 +139,15 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	if !wellFormed(psp) || seed == nil {
+		log.Lvl1("-----------verify failed (malformed proof)")
+		return false
+	}
+	if !psp.H.Equal(seed) {
+		log.Lvl1("-----------verify failed (shuffled under another key)")
+		return false
+	}
+
 	e, err := columnFactors(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
@@ -194,6 +203,26 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 	return true
 }
 
+// wellFormed checks that nothing is missing in a proof and that its lists have the same numbers of rows and columns
+func wellFormed(psp PublishedShufflingProof) bool {
+	if psp.G == nil || psp.H == nil || len(psp.OriginalList) == 0 || len(psp.OriginalList) != len(psp.ShuffledList) {
+		return false
+	}
+	for _, list := range [][]libunlynx.CipherVector{psp.OriginalList, psp.ShuffledList} {
+		for _, row := range list {
+			if len(row) != len(psp.OriginalList[0]) {
+				return false
+			}
+			for _, ct := range row {
+				if ct.K == nil || ct.C == nil {
+					return false
+				}
+			}
+		}
+	}
+	return true
+}
+
 // ShuffleListProofVerification verifies a list of shuffle proofs
 func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.Point, percent float64) bool {
 	nbrProofsToVerify := int(math.Ceil(percent * float64(len(pslp.List))))
-- 
2.43.0


From 74a82693bef2461115f498b4fafa7d942cef4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 30/46] fix: prove shuffles of less than two rows, and with
 other generators

---
 lib/shuffle/shuffle_proofs.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e9b0692..6bdae1a 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -47,6 +47,11 @@ type PublishedShufflingListProof struct {
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
+	if len(originalList) == 0 {
+		// nothing was shuffled, there is nothing to prove
+		return PublishedShufflingProof{originalList, shuffledList, g, h, nil}, nil
+	}
+
 	e, err := columnFactors(h, originalList, shuffledList)
 	if err != nil {
 		return PublishedShufflingProof{}, err
@@ -88,11 +93,15 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 	if k != len(Yhat) {
 		return PublishedShufflingProof{}, fmt.Errorf("X,Y vectors have inconsistent lengths")
 	}
+	Xhat, Yhat = padSingle(Xhat), padSingle(Yhat)
+	if k == 1 {
+		k, pi, betaCompressed = 2, []int{0, 1}, append(betaCompressed, libunlynx.SuiTe.Scalar().Zero())
+	}
 	ps := shuffleKyber.PairShuffle{}
 	ps.Init(libunlynx.SuiTe, k)
 
 	prover := func(ctx proof.ProverContext) error {
-		return ps.Prove(pi, nil, h, betaCompressed, Xhat, Yhat, rand, ctx)
+		return ps.Prove(pi, g, h, betaCompressed, Xhat, Yhat, rand, ctx)
 	}
 
 	prf, err := proof.HashProve(libunlynx.SuiTe, "PairShuffle", prover)
@@ -102,6 +111,14 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 	return PublishedShufflingProof{originalList, shuffledList, g, h, prf}, nil
 }
 
+// padSingle adds a null point to a list of one point: the shuffle proofs are only defined for two elements and more
+func padSingle(points []kyber.Point) []kyber.Point {
+	if len(points) == 1 {
+		return append(points, libunlynx.SuiTe.Point().Null())
+	}
+	return points
+}
+
 // ShuffleListProofCreation generates a list of shuffle proofs
 func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVector, gList, hList []kyber.Point, betaList [][][]kyber.Scalar, piList [][]int) (PublishedShufflingListProof, error) {
 	nbrProofsToCreate := len(originalList)
@@ -148,6 +165,10 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
+	if len(psp.OriginalList) == 0 {
+		return len(psp.HashProof) == 0
+	}
+
 	e, err := columnFactors(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
@@ -192,7 +213,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
-	verifier := shuffleKyber.Verifier(libunlynx.SuiTe, psp.G, psp.H, x, y, xbar, ybar)
+	verifier := shuffleKyber.Verifier(libunlynx.SuiTe, psp.G, psp.H, padSingle(x), padSingle(y), padSingle(xbar), padSingle(ybar))
 	err = proof.HashVerify(libunlynx.SuiTe, "PairShuffle", verifier, psp.HashProof)
 	if err != nil {
 		log.Error(err)
@@ -205,7 +226,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 
 // wellFormed checks that nothing is missing in a proof and that its lists have the same numbers of rows and columns
 func wellFormed(psp PublishedShufflingProof) bool {
-	if psp.G == nil || psp.H == nil || len(psp.OriginalList) == 0 || len(psp.OriginalList) != len(psp.ShuffledList) {
+	if psp.G == nil || psp.H == nil || len(psp.OriginalList) != len(psp.ShuffledList) {
 		return false
 	}
 	for _, list := range [][]libunlynx.CipherVector{psp.OriginalList, psp.ShuffledList} {
-- 
2.43.0


From 9a008c41b66487310a4e95b0f86b2991bbae107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 31/46] fix: each instance of a local protocol delivers its own
 result to its own caller

---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..629e410 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -39,6 +39,9 @@ type AddRmServerProtocol struct {
 	KeyToRm                kyber.Scalar
 	Proofs                 bool
 	Add                    bool
+
+	// result of this instance, from Start to Dispatch
+	finalResult chan []libunlynx.CipherText
 }
 
 // NewAddRmProtocol is constructor of add/rm protocol instances.
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText, 1),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +87,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +97,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..47c2a06 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -35,6 +33,9 @@ type LocalAggregationProtocol struct {
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
+
+	// result of this instance, from Start to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 }
 
 // NewLocalAggregationProtocol is constructor of Local Aggregation protocol instances.
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse, 1),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..99e8df7 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -31,6 +31,9 @@ type LocalClearAggregationProtocol struct {
 
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
+
+	// result of this instance, from Start to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
 }
 
 // NewLocalClearAggregationProtocol is constructor of Proofs Verification protocol instances.
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse, 1),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..411925a 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -47,6 +47,9 @@ type ProofsVerificationProtocol struct {
 
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
+
+	// result of this instance, from Start to Dispatch
+	finalResult chan []bool
 }
 
 // NewProofsVerificationProtocol is constructor of Proofs Verification protocol instances.
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool, 1),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 53356813ee6977fa137f98378c6e40c97b0e28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 32/46] fix: add/remove server with proofs accepts an empty
 list and rejects proofs that do not verify

---
 protocols/utils/addrm_server_protocol.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 629e410..a6512ef 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -80,10 +80,11 @@ func (p *AddRmServerProtocol) Start() error {
 
 	roundProof = libunlynx.StartTimer(p.Name() + "_AddRmServer(PROOFSVerif)")
 
-	if p.Proofs && len(proofs.List) == 0 {
-		return fmt.Errorf("something went wrong during the creation of the add/rm proofs")
+	if p.Proofs {
+		if len(proofs.List) != len(result) || !libunlynxaddrm.AddRmListProofVerification(proofs, 1.0) {
+			return fmt.Errorf("something went wrong during the creation of the add/rm proofs")
+		}
 	}
-	libunlynxaddrm.AddRmListProofVerification(proofs, 1.0)
 
 	libunlynx.EndTimer(roundProof)
 
-- 
2.43.0


From 4536414538596570c67a21af6159ffd6abb29bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 33/46] fix: clear aggregation filters on all where attributes,
 and accepts responses without attributes to group by

---
 lib/store/store.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 17f43a5..02371e6 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -187,6 +187,16 @@ func (s *Store) nextID() uint64 {
 	return uint64(s.lastID)
 }
 
+// allOnes checks that all the attributes are 1
+func allOnes(attributes map[string]int64) bool {
+	for _, v := range attributes {
+		if v != 1 {
+			return false
+		}
+	}
+	return true
+}
+
 // AddInClear permits to add non-encrypted DP responses
 func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	dataMap := make(map[string][]int64)
@@ -200,14 +210,11 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
 
 		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
-			}
+		if !allOnes(elem.WhereClear) || !allOnes(elem.WhereEnc) {
+			//discard these entries
+			continue
 		}
 
 		cpy := make([]int64, 0)
-- 
2.43.0


From 6ef61615d5f338e74a13255b28b675d2661ccac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 34/46] fix: the store's tables of aggregated responses are
 only accessed under its lock, and its proofs cover what was aggregated before

---
 lib/store/store.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 02371e6..24fc6a7 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -148,19 +148,29 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 	round := libunlynx.StartTimer(serverName + "_ServerLocalAggregation")
 
 	cvMap := make(map[libunlynx.GroupingKey][]libunlynx.CipherVector)
-	for _, v := range detFilteredResponses {
-		s.Mutex.Lock()
-		libunlynx.AddInMap(s.LocAggregatedProcessResponse, v.DetTagGroupBy, v.Fr)
-		s.Mutex.Unlock()
+	results := make(map[libunlynx.GroupingKey]libunlynx.CipherVector)
 
+	s.Mutex.Lock()
+	for _, v := range detFilteredResponses {
 		if proofsB {
+			// what has been aggregated before is a part of the sum
+			if previous, ok := s.LocAggregatedProcessResponse[v.DetTagGroupBy]; ok && len(cvMap[v.DetTagGroupBy]) == 0 {
+				aggregated := libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: previous}
+				aggregated.FormatAggregationProofs(cvMap)
+			}
 			v.FormatAggregationProofs(cvMap)
 		}
 
+		libunlynx.AddInMap(s.LocAggregatedProcessResponse, v.DetTagGroupBy, v.Fr)
+	}
+	for k := range cvMap {
+		results[k] = s.LocAggregatedProcessResponse[k].AggregatingAttributes
 	}
+	s.Mutex.Unlock()
+
 	if proofsB {
 		for k, v := range cvMap {
-			libunlynxaggr.AggregationListProofCreation(v, s.LocAggregatedProcessResponse[k].AggregatingAttributes)
+			libunlynxaggr.AggregationListProofCreation(v, results[k])
 		}
 	}
 
@@ -169,6 +179,8 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 
 // HasNextAggregatedResponse verifies the presence of locally aggregated results.
 func (s *Store) HasNextAggregatedResponse() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	return len(s.LocAggregatedProcessResponse) > 0
 }
 
@@ -277,11 +289,16 @@ func (s *Store) PushCothorityAggregatedFilteredResponses(sNew map[libunlynx.Grou
 
 // HasNextAggregatedFilteredResponses verifies that the server has local grouping results (group attributes).
 func (s *Store) HasNextAggregatedFilteredResponses() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	return len(s.GroupedDeterministicFilteredResponses) > 0
 }
 
 // PullCothorityAggregatedFilteredResponses returns the local results of the grouping.
 func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	aggregatedResults := make([]libunlynx.FilteredResponse, len(s.GroupedDeterministicFilteredResponses))
 	aggregatedGrps := make([]libunlynx.GroupingKey, len(s.GroupedDeterministicFilteredResponses))
 	count := 0
@@ -303,11 +320,16 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	s.DeliverableResults = keySwitchedResponse
 }
 
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	results := s.DeliverableResults
 	s.DeliverableResults = nil
 
-- 
2.43.0


From 7e2b058b2ce50734b21e14c7b9dad6bb99332291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 35/46] fix: test data covers all groups, reads back as
 written, and is compared as a multiset without being altered

---
 data/handle_data.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..34d90ab 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -82,6 +82,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -89,7 +90,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -97,7 +97,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
@@ -273,7 +272,9 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 			})
 		}
 	}
-	testData[id] = container
+	if dataIn {
+		testData[id] = container
+	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
@@ -296,6 +297,15 @@ func joinMaps(a, b map[string]int64) map[string]int64 {
 	return concat
 }
 
+// repeatMap multiplies all the values by the number of repetitions, in a new map
+func repeatMap(a map[string]int64, repetitions int64) map[string]int64 {
+	repeated := make(map[string]int64)
+	for k, v := range a {
+		repeated[k] = v * repetitions
+	}
+	return repeated
+}
+
 // ClearExpectedResult clears the map so that there are no where attributes
 func ClearExpectedResult(expectedResult []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	clearExpectedResult := make([]libunlynx.DpClearResponse, len(expectedResult))
@@ -323,12 +333,8 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
-				for k := range elem.AggregatingAttributesClear {
-					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
-				}
-				for k := range elem.AggregatingAttributesEnc {
-					elem.AggregatingAttributesEnc[k] = elem.AggregatingAttributesEnc[k] * int64(dataRepetitions)
-				}
+				elem.AggregatingAttributesClear = repeatMap(elem.AggregatingAttributesClear, int64(dataRepetitions))
+				elem.AggregatingAttributesEnc = repeatMap(elem.AggregatingAttributesEnc, int64(dataRepetitions))
 			}
 
 			allData = append(allData, elem)
@@ -346,26 +352,33 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
+	if len(x) != len(y) {
+		return false
+	}
+
+	// each response of x is paired with a different one of y
+	paired := make([]bool, len(y))
 	for _, i := range x {
-		test = false
-		for _, j := range y {
-			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
+		test := false
+		for k, j := range y {
+			if !paired[k] &&
+				(reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
 				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
 				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
 				(reflect.DeepEqual(i.WhereEnc, j.WhereEnc) || (len(i.WhereEnc) == 0 && len(j.WhereEnc) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesClear, j.AggregatingAttributesClear) || (len(i.AggregatingAttributesClear) == 0 && len(j.AggregatingAttributesClear) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
 
+				paired[k] = true
 				test = true
 				break
 			}
 		}
 
 		if !test {
-			break
+			return false
 		}
 	}
 
-	return test
+	return true
 }
-- 
2.43.0


From 20980abd65bbffe6c0e37ef40be3eb041b21a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 36/46] fix: tag creation is proved with the private key and
 the survey secret in their own places

---
 protocols/deterministic_tagging_protocol.go | 2 +-
 protocols/shuffling+ddt_protocol.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index f02b1f4..c84f25b 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -310,7 +310,7 @@ func sendingDet(p DeterministicTaggingProtocol, detTarget DeterministicTaggingMe
 func TaggingDet(cv *libunlynx.CipherVector, privKey, secretContrib kyber.Scalar, pubKey kyber.Point, proofs bool) error {
 	switchedVect := libunlynxdetertag.DeterministicTagSequence(*cv, privKey, secretContrib)
 	if proofs {
-		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, secretContrib, privKey)
+		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, privKey, secretContrib)
 		if err != nil {
 			return err
 		}
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index b889830..7b68d3d 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -238,7 +238,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 				vBef := shuffledData[i+j]
 				vAft := libunlynxdetertag.DeterministicTagSequence(vBef, p.Private(), *p.SurveySecretKey)
 				if p.Proofs {
-					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), *p.SurveySecretKey, p.Private())
+					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), p.Private(), *p.SurveySecretKey)
 					if tmpErr != nil {
 						mutex.Lock()
 						err = tmpErr
-- 
2.43.0


From 7fd47a59f04b328c48df05934516f43edb70b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 37/46] fix: shuffling+DDT no longer changes the data and the
 key that its shuffling proof is about, and reports failures of the tagging
 proofs

---
 protocols/shuffling+ddt_protocol.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 7b68d3d..f2d50c1 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -194,6 +194,9 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 	step2 := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(Step2-DDTAddition)")
 	toAdd := libunlynx.SuiTe.Point().Mul(*p.SurveySecretKey, libunlynx.SuiTe.Point().Base()) //siB (basically)
 
+	// the shuffled data is part of the shuffling proof and must not change
+	addedData := make([]libunlynx.CipherVector, len(shuffledData))
+
 	mutex := sync.Mutex{}
 	wg := sync.WaitGroup{}
 	for i := 0; i < len(shuffledData); i += libunlynx.VPARALLELIZE {
@@ -201,6 +204,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(shuffledData); j++ {
+				addedData[i+j] = make(libunlynx.CipherVector, len(shuffledData[i+j]))
 				for k := range shuffledData[i+j] {
 					r := libunlynx.SuiTe.Point().Add(shuffledData[i+j][k].C, toAdd)
 					if p.Proofs {
@@ -212,7 +216,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 							return
 						}
 					}
-					shuffledData[i+j][k].C = r
+					addedData[i+j][k] = libunlynx.CipherText{K: shuffledData[i+j][k].K, C: r}
 				}
 			}
 		}(i)
@@ -228,14 +232,15 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 
 	// STEP 3: Partial Decryption (second round of DDT, deterministic tag creation)
 	step3 := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(Step3-DDT)")
+	taggedVectors := make([]libunlynx.CipherVector, len(addedData))
 	mutex = sync.Mutex{}
 	wg = sync.WaitGroup{}
-	for i := 0; i < len(shuffledData); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < len(addedData); i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(shuffledData); j++ {
-				vBef := shuffledData[i+j]
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(addedData); j++ {
+				vBef := addedData[i+j]
 				vAft := libunlynxdetertag.DeterministicTagSequence(vBef, p.Private(), *p.SurveySecretKey)
 				if p.Proofs {
 					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), p.Private(), *p.SurveySecretKey)
@@ -246,11 +251,14 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 						return
 					}
 				}
-				copy(shuffledData[i+j], vAft)
+				taggedVectors[i+j] = vAft
 			}
 		}(i)
 	}
 	wg.Wait()
+	if err != nil {
+		return err
+	}
 	libunlynx.EndTimer(step3)
 
 	var taggedData []libunlynx.DeterministCipherVector
@@ -259,7 +267,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		prepareResult := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(PrepareResult)")
 		taggedData = make([]libunlynx.DeterministCipherVector, len(*p.TargetData))
 		size := 0
-		for i, v := range shuffledData {
+		for i, v := range taggedVectors {
 			taggedData[i] = make(libunlynx.DeterministCipherVector, len(v))
 			for j, el := range v {
 				taggedData[i][j] = libunlynx.DeterministCipherText{Point: el.C}
@@ -283,13 +291,13 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		sendData := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(SendData)")
 		message := ShufflingPlusDDTBytesMessage{}
 		var cvBytesLengths []byte
-		message.Data, cvBytesLengths, err = (&ShufflingPlusDDTMessage{Data: shuffledData}).ToBytes()
+		message.Data, cvBytesLengths, err = (&ShufflingPlusDDTMessage{Data: taggedVectors}).ToBytes()
 		if err != nil {
 			return err
 		}
 
 		// we have to subtract the key p.Public to the shuffling key (we partially decrypt during tagging)
-		message.ShuffKey, err = libunlynx.AbstractPointsToBytes([]kyber.Point{sm.ShuffKey.Sub(sm.ShuffKey, p.Public())})
+		message.ShuffKey, err = libunlynx.AbstractPointsToBytes([]kyber.Point{libunlynx.SuiTe.Point().Sub(sm.ShuffKey, p.Public())})
 		libunlynx.EndTimer(sendData)
 		if err != nil {
 			return err
-- 
2.43.0


From 0f2a37195ea1d8885df8a954965a413f60e8d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 38/46] hook: observe the creation of proofs (build tag verif)

---
 lib/aggregation/aggregation_proofs.go         |  5 ++++-
 .../deterministic_tag_proofs.go               |  9 +++++++--
 lib/key_switch/key_switch_proofs.go           |  5 ++++-
 lib/shuffle/shuffle_proofs.go                 |  8 ++++++--
 lib/verif_hook.go                             | 20 +++++++++++++++++++
 lib/verif_nohook.go                           |  7 +++++++
 6 files changed, 48 insertions(+), 6 deletions(-)
 create mode 100644 lib/verif_hook.go
 create mode 100644 lib/verif_nohook.go

diff --git a/lib/aggregation/aggregation_proofs.go b/lib/aggregation/aggregation_proofs.go
index f211f4e..90c0d07 100644
--- a/lib/aggregation/aggregation_proofs.go
+++ b/lib/aggregation/aggregation_proofs.go
@@ -35,7 +35,9 @@ type PublishedAggregationListProofBytes struct {
 
 // AggregationProofCreation creates a proof for aggregation
 func AggregationProofCreation(data libunlynx.CipherVector, aggregationResult libunlynx.CipherText) PublishedAggregationProof {
-	return PublishedAggregationProof{Data: data, AggregationResult: aggregationResult}
+	result := PublishedAggregationProof{Data: data, AggregationResult: aggregationResult}
+	libunlynx.VerifProof("aggregation", result)
+	return result
 }
 
 // AggregationListProofCreation creates multiple proofs for aggregation
@@ -56,6 +58,7 @@ func AggregationListProofCreation(data []libunlynx.CipherVector, aggregationResu
 	}
 	wg.Wait()
 
+	libunlynx.VerifProof("aggregation-list", papList)
 	return papList
 }
 
diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 259b7fd..3b0cbe2 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -84,7 +84,9 @@ func DeterministicTagCrProofCreation(ctBef, ctAft libunlynx.CipherText, K kyber.
 		return PublishedDDTCreationProof{}, fmt.Errorf("---------prover: %v", err)
 	}
 
-	return PublishedDDTCreationProof{Proof: Proof, Ciminus11Si: ciminus11Si, CTbef: ctBef, CTaft: ctAft}, nil
+	result := PublishedDDTCreationProof{Proof: Proof, Ciminus11Si: ciminus11Si, CTbef: ctBef, CTaft: ctAft}
+	libunlynx.VerifProof("tag", result, K, s)
+	return result, nil
 }
 
 // DeterministicTagCrListProofCreation creates a list of deterministic tag proofs (multiple ciphertexts)
@@ -121,6 +123,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 	listProofs.K = K
 	listProofs.SB = libunlynx.SuiTe.Point().Mul(s, libunlynx.SuiTe.Point().Base())
 
+	libunlynx.VerifProof("tag-list", listProofs)
 	return listProofs, nil
 }
 
@@ -203,7 +206,9 @@ func DeterministicTagAdditionProofCreation(c1 kyber.Point, s kyber.Scalar, c2 ky
 		return PublishedDDTAdditionProof{}, fmt.Errorf("---------prover: %v", err)
 	}
 
-	return PublishedDDTAdditionProof{Proof: Proof, C1: c1, C2: c2, R: r}, nil
+	result := PublishedDDTAdditionProof{Proof: Proof, C1: c1, C2: c2, R: r}
+	libunlynx.VerifProof("tag-addition", result)
+	return result, nil
 }
 
 // DeterministicTagAdditionListProofCreation creates proof for deterministic tagging addition on multiple kyber points
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index fd105a0..3feefef 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -71,7 +71,9 @@ func KeySwitchProofCreation(K, Q kyber.Point, k kyber.Scalar, viB, ks2, rBNeg ky
 		return PublishedKSProof{}, fmt.Errorf("---------prover: %v", err)
 	}
 
-	return PublishedKSProof{Proof: proofKS, K: K, ViB: viB, Ks2: ks2, RbNeg: rBNeg, Q: Q}, nil
+	result := PublishedKSProof{Proof: proofKS, K: K, ViB: viB, Ks2: ks2, RbNeg: rBNeg, Q: Q}
+	libunlynx.VerifProof("key-switch", result)
+	return result, nil
 }
 
 // KeySwitchListProofCreation creates a list of key switch proofs (multiple ciphertexts)
@@ -120,6 +122,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 		return PublishedKSListProof{}, err
 	}
 
+	libunlynx.VerifProof("key-switch-list", plop)
 	return plop, nil
 }
 
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 6bdae1a..1e334b6 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -49,7 +49,9 @@ type PublishedShufflingListProof struct {
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
 	if len(originalList) == 0 {
 		// nothing was shuffled, there is nothing to prove
-		return PublishedShufflingProof{originalList, shuffledList, g, h, nil}, nil
+		result := PublishedShufflingProof{originalList, shuffledList, g, h, nil}
+		libunlynx.VerifProof("shuffle", result)
+		return result, nil
 	}
 
 	e, err := columnFactors(h, originalList, shuffledList)
@@ -108,7 +110,9 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 	if err != nil {
 		return PublishedShufflingProof{}, fmt.Errorf("shuffle proof failed: %v", err)
 	}
-	return PublishedShufflingProof{originalList, shuffledList, g, h, prf}, nil
+	result := PublishedShufflingProof{originalList, shuffledList, g, h, prf}
+	libunlynx.VerifProof("shuffle", result)
+	return result, nil
 }
 
 // padSingle adds a null point to a list of one point: the shuffle proofs are only defined for two elements and more
diff --git a/lib/verif_hook.go b/lib/verif_hook.go
new file mode 100644
index 0000000..24be43f
--- /dev/null
+++ b/lib/verif_hook.go
@@ -0,0 +1,20 @@
+//go:build verif
+// +build verif
+
+package libunlynx
+
+import "sync/atomic"
+
+var verifProofHook atomic.Value
+
+// SetVerifProofHook sets the function that observes the proofs that are created.
+func SetVerifProofHook(f func(kind string, args ...interface{})) {
+	verifProofHook.Store(f)
+}
+
+// VerifProof reports the creation of a proof to the observer.
+func VerifProof(kind string, args ...interface{}) {
+	if f, ok := verifProofHook.Load().(func(string, ...interface{})); ok && f != nil {
+		f(kind, args...)
+	}
+}
diff --git a/lib/verif_nohook.go b/lib/verif_nohook.go
new file mode 100644
index 0000000..3442f62
--- /dev/null
+++ b/lib/verif_nohook.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package libunlynx
+
+// VerifProof does nothing: proofs are only observed in builds with the tag verif.
+func VerifProof(kind string, args ...interface{}) {}
-- 
2.43.0


From 8049056ecc4700ba51336cc3deb857f0226f131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 39/46] hook: observe the creation of add/remove proofs (build
 tag verif)

---
 lib/add_rm/add_rm_proofs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 965e5cb..3b27ec4 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -68,7 +68,9 @@ func AddRmProofCreation(cBef, cAft libunlynx.CipherText, K kyber.Point, k kyber.
 		return PublishedAddRmProof{}, fmt.Errorf("---------prover: %v", err)
 	}
 
-	return PublishedAddRmProof{Proof: proofTmp, CtBef: cBef, CtAft: cAft, RB: rB}, nil
+	result := PublishedAddRmProof{Proof: proofTmp, CtBef: cBef, CtAft: cAft, RB: rB}
+	libunlynx.VerifProof("add-remove", result, K, toAdd)
+	return result, nil
 }
 
 // AddRmListProofCreation creates proof for add/rm server protocol for one ciphervector
-- 
2.43.0


From a424c74ac2669e0d4b16c21923c47112915c5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 40/46] fix: noise is centred on the mean that was asked for,
 and its generation ends when neither quanta nor limit is given and when the
 density underflows

---
 lib/differential_privacy/diff_privacy.go | 38 ++++++++++++------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/lib/differential_privacy/diff_privacy.go b/lib/differential_privacy/diff_privacy.go
index 3c750e3..e313a04 100644
--- a/lib/differential_privacy/diff_privacy.go
+++ b/lib/differential_privacy/diff_privacy.go
@@ -7,6 +7,9 @@ import (
 	"go.dedis.ch/onet/v3/log"
 )
 
+// negligible is the part of the total below which the density is not summed any further
+const negligible = 1e-12
+
 // GenerateNoiseValues generates a number of n noise values from a given probabilistic distribution
 func GenerateNoiseValues(n int64, mean, b, quanta, limit float64) []float64 {
 	return GenerateNoiseValuesScale(n, mean, b, quanta, 1, limit)
@@ -14,19 +17,24 @@ func GenerateNoiseValues(n int64, mean, b, quanta, limit float64) []float64 {
 
 // GenerateNoiseValuesScale generates a number of n noise values from a given probabilistic distribution
 func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []float64 {
-	laplace := stats.Laplace(mean, b)
+	// density around the mean: the values are at the mean plus and minus the same steps
+	laplace := stats.Laplace(0, b)
 
 	if limit != 0.0 && quanta != 0.0 {
 		log.LLvl1("Both size and limit defined --> uses quanta")
 	} else if quanta == 0.0 {
 		sumToLim := 0.0
-		for i := 0.0; i < limit; i = i + 1/scale {
+		// without a limit, up to where the density is negligible
+		for i := 0.0; i < limit || limit == 0.0; i = i + 1/scale {
+			val := laplace.Pdf(i)
 			if i == 0.0 {
-				sumToLim = laplace.Pdf(i)
+				sumToLim = val
 			} else {
-				sumToLim = sumToLim + 2*laplace.Pdf(i)
+				sumToLim = sumToLim + 2*val
+			}
+			if limit == 0.0 && val < negligible*sumToLim {
+				break
 			}
-
 		}
 		quanta = sumToLim / float64(n)
 	}
@@ -34,29 +42,21 @@ func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []
 	noise := make([]float64, 0)
 
 	start := 0.0
-	countOnes := 0
 	for int64(len(noise)) < n {
 		val := laplace.Pdf(float64(start))
-		rep := math.Ceil(val / quanta)
-		count := 0
-		for i := 0; i < int(rep); i++ {
-			if start == 0 {
-				noise = append(noise, float64(start*scale))
-			} else {
-				noise = append(noise, float64(start*scale))
-				noise = append(noise, float64(0-start*scale))
+		// at least one, also where the density is too small to be represented
+		rep := math.Max(1, math.Ceil(val/quanta))
+		for i := 0.0; i < rep; i++ {
+			noise = append(noise, (mean+start)*scale)
+			if start != 0 {
+				noise = append(noise, (mean-start)*scale)
 			}
-			count++
 
 			if int64(len(noise)) >= n {
 				break
 			}
 		}
 		start = start + 1/scale
-
-		if count == 1 {
-			countOnes = countOnes + 1
-		}
 	}
 	return noise[:n]
 }
-- 
2.43.0


From eaa70291f8d9beda361c1b056c45d4ad4de5c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 41/46] fix: a query that cannot be parsed was run anyway, as
 an empty one; lists were checked loosely, count queries and queries without
 where or group by were not possible, and the predicate was not checked

---
 cmd/unlynx/client.go | 96 +++++++++++++++++++++++++-------------------
 services/service.go  |  6 +--
 2 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..cdb6925 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -48,6 +48,11 @@ func startQuery(el *onet.Roster, proofs bool, sum []string, count bool, whereQue
 func runUnLynx(c *cli.Context) {
 	tomlFileName := c.String("file")
 
+	// the flags that come after such an argument are not parsed
+	if c.NArg() > 0 {
+		log.Fatal("Unexpected argument: ", c.Args().First())
+	}
+
 	proofs := c.Bool("proofs")
 
 	// query parameters
@@ -61,6 +66,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
@@ -94,65 +100,73 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
-	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
-	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
+	sumRegex := `^\{\s*(s[0-9]+|count)\s*(,\s*(s[0-9]+|count)\s*)*\}$`
+	whereRegex := `^\{\s*(w[0-9]+\s*,\s*[0-9]+\s*(,\s*w[0-9]+\s*,\s*[0-9]+\s*)*)?\}$`
+	groupByRegex := `^\{\s*g[0-9]+\s*(,\s*g[0-9]+\s*)*\}$`
 
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
 	}
-	sum = strings.Replace(sum, " ", "", -1)
-	sum = strings.Replace(sum, "{", "", -1)
-	sum = strings.Replace(sum, "}", "", -1)
-	sumFinal := strings.Split(sum, ",")
-
-	if count {
-		check := false
-		for _, el := range sumFinal {
-			if el == "count" {
-				check = true
-			}
-		}
+	sumFinal := splitList(sum)
 
-		if !check {
-			return nil, false, nil, "", nil, fmt.Errorf("no 'count' attribute in the sum variables")
+	check := false
+	for _, el := range sumFinal {
+		if el == "count" {
+			check = true
 		}
 	}
-
-	if !checkRegex(where, whereRegex) {
-		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
+	if count && !check {
+		return nil, false, nil, "", nil, fmt.Errorf("no 'count' attribute in the sum variables")
+	} else if check && !count {
+		return nil, false, nil, "", nil, fmt.Errorf("'count' attribute in the sum variables of a query that is not a count query")
 	}
-	where = strings.Replace(where, " ", "", -1)
-	where = strings.Replace(where, "{", "", -1)
-	where = strings.Replace(where, "}", "", -1)
-	whereTokens := strings.Split(where, ",")
 
 	whereFinal := make([]libunlynx.WhereQueryAttribute, 0)
-
-	var variable string
-	for i := range whereTokens {
-		// if is a variable (w1, w2...)
-		if i%2 == 0 {
-			variable = whereTokens[i]
-		} else { // if it is a value
-			value, err := strconv.Atoi(whereTokens[i])
-			if err != nil {
-				return nil, false, nil, "", nil, err
+	if where != "" {
+		if !checkRegex(where, whereRegex) {
+			return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
+		}
+		whereTokens := splitList(where)
+
+		var variable string
+		for i := range whereTokens {
+			// if is a variable (w1, w2...)
+			if i%2 == 0 {
+				variable = whereTokens[i]
+			} else { // if it is a value
+				value, err := strconv.ParseInt(whereTokens[i], 10, 64)
+				if err != nil {
+					return nil, false, nil, "", nil, err
+				}
+
+				whereFinal = append(whereFinal, libunlynx.WhereQueryAttribute{Name: variable, Value: *libunlynx.EncryptInt(el.Aggregate, value)})
 			}
+		}
 
-			whereFinal = append(whereFinal, libunlynx.WhereQueryAttribute{Name: variable, Value: *libunlynx.EncryptInt(el.Aggregate, int64(value))})
+		if err := servicesunlynx.CheckPredicate(predicate, len(whereFinal)); err != nil {
+			return nil, false, nil, "", nil, err
 		}
 	}
 
-	if !checkRegex(groupBy, groupByRegex) {
-		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
+	groupByFinal := make([]string, 0)
+	if groupBy != "" {
+		if !checkRegex(groupBy, groupByRegex) {
+			return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
+		}
+		groupByFinal = splitList(groupBy)
 	}
-	groupBy = strings.Replace(groupBy, " ", "", -1)
-	groupBy = strings.Replace(groupBy, "{", "", -1)
-	groupBy = strings.Replace(groupBy, "}", "", -1)
-	groupByFinal := strings.Split(groupBy, ",")
 
 	return sumFinal, count, whereFinal, predicate, groupByFinal, nil
 }
 
+// splitList returns the elements of a list that is written as {a, b, c}
+func splitList(list string) []string {
+	list = strings.Join(strings.Fields(list), "")
+	list = strings.TrimSuffix(strings.TrimPrefix(list, "{"), "}")
+	if list == "" {
+		return []string{}
+	}
+	return strings.Split(list, ",")
+}
+
 // CLIENT END: QUERIER ----------
diff --git a/services/service.go b/services/service.go
index ca50316..7b2b1fa 100644
--- a/services/service.go
+++ b/services/service.go
@@ -266,7 +266,7 @@ func (s *Service) checkSurveyCreationQuery(recq *SurveyCreationQuery) error {
 		}
 	}
 	if recq.Predicate != "" {
-		return checkPredicate(recq.Predicate, len(recq.Where))
+		return CheckPredicate(recq.Predicate, len(recq.Where))
 	}
 	return nil
 }
@@ -962,8 +962,8 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 // Support Functions
 //______________________________________________________________________________________________________________________
 
-// checkPredicate verifies that a predicate is a boolean expression over the parameters of the where attributes
-func checkPredicate(pred string, nbrWhere int) error {
+// CheckPredicate verifies that a predicate is a boolean expression over the parameters of the where attributes
+func CheckPredicate(pred string, nbrWhere int) error {
 	if len(pred) > maxPredicateSize {
 		return fmt.Errorf("invalid predicate: too long")
 	}
-- 
2.43.0


From b6bd4be10891aecfc5f99f1f9a4b186b48034829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 42/46] fix: the map of the surveys was read and written at the
 same time without synchronisation

---
 services/service.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index 7b2b1fa..95a9280 100644
--- a/services/service.go
+++ b/services/service.go
@@ -142,10 +142,15 @@ type ServiceResult struct {
 type Service struct {
 	*onet.ServiceProcessor
 	Survey *concurrent.ConcurrentMap
+
+	// the map reads its entries without locking them
+	surveyMutex sync.RWMutex
 }
 
 func (s *Service) getSurvey(sid SurveyID) (Survey, error) {
+	s.surveyMutex.RLock()
 	surv, err := s.Survey.Get(string(sid))
+	s.surveyMutex.RUnlock()
 	if err != nil {
 		return Survey{}, fmt.Errorf("error while getting surveyID "+string(sid)+": %v", err)
 	}
@@ -156,6 +161,8 @@ func (s *Service) getSurvey(sid SurveyID) (Survey, error) {
 }
 
 func (s *Service) putSurvey(sid SurveyID, surv Survey) error {
+	s.surveyMutex.Lock()
+	defer s.surveyMutex.Unlock()
 	_, err := s.Survey.Put(string(sid), surv)
 	return err
 }
@@ -306,7 +313,7 @@ func (s *Service) createSurvey(recq *SurveyCreationQuery) (network.Message, erro
 	}
 
 	// survey instantiation
-	_, err = s.Survey.Put((string)(recq.SurveyID), Survey{
+	err = s.putSurvey(recq.SurveyID, Survey{
 		Store:             libunlynxstore.NewStore(),
 		Query:             *recq,
 		SurveySecretKey:   surveySecret,
-- 
2.43.0


From 58729269e601020f440a2a529f9253571a96daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 43/46] fix: key switching crashed the servers on an
 announcement without points or a contribution of another size

---
 protocols/key_switching_protocol.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index 1966138..00ba8a6 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -255,6 +255,10 @@ func (p *KeySwitchingProtocol) announcementKSPhase() (kyber.Point, []kyber.Point
 		return nil, nil, err
 	}
 
+	if len(message) == 0 {
+		return nil, nil, fmt.Errorf(p.ServerIdentity().String() + " received no key to switch to")
+	}
+
 	return message[0], message[1:], nil
 }
 
@@ -274,8 +278,13 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 			datas = append(datas, v)
 		}
 		for i := range length { // len of length is number of children
+			nbrCiphers := libunlynxtools.UnsafeCastBytesToInts(length[i].Length)
+			if len(nbrCiphers) != 1 || nbrCiphers[0] != len(*p.NodeContribution) {
+				return nil, fmt.Errorf(p.ServerIdentity().String() + " received a contribution of the wrong size")
+			}
+
 			cv := libunlynx.CipherVector{}
-			err := cv.FromBytes(datas[i].Data, libunlynxtools.UnsafeCastBytesToInts(length[i].Length)[0])
+			err := cv.FromBytes(datas[i].Data, nbrCiphers[0])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 4195b539967cd41f1258d10a002c3cbc97f92a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 44/46] fix: shuffling crashed the servers, or gave back rows
 that were not asked for, on received rows of unexpected number or size

---
 protocols/shuffling+ddt_protocol.go |  4 ++++
 protocols/shuffling_protocol.go     | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index f2d50c1..357f46c 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -174,6 +174,10 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		return err
 	}
 
+	if err := checkReceivedRows(sm.Data, p.TargetData); err != nil {
+		return err
+	}
+
 	libunlynx.EndTimer(readData)
 
 	// STEP 1: Shuffling of the data
diff --git a/protocols/shuffling_protocol.go b/protocols/shuffling_protocol.go
index acc6fc7..0c3946a 100644
--- a/protocols/shuffling_protocol.go
+++ b/protocols/shuffling_protocol.go
@@ -206,6 +206,9 @@ func (p *ShufflingProtocol) Dispatch() error {
 		return err
 	}
 	shuffleTarget := sm.Data
+	if err := checkReceivedRows(shuffleTarget, p.ShuffleTarget); err != nil {
+		return err
+	}
 
 	timer := time.Now()
 	shufflingDispatch := libunlynx.StartTimer(p.Name() + "_Shuffling(DISPATCH)")
@@ -276,6 +279,24 @@ func (p *ShufflingProtocol) Dispatch() error {
 	return nil
 }
 
+// checkReceivedRows verifies that the received rows can be shuffled. The server which started the protocol also expects
+// as many rows and elements as it sent.
+func checkReceivedRows(received []libunlynx.CipherVector, sent *[]libunlynx.CipherVector) error {
+	expected := received
+	if sent != nil {
+		expected = *sent
+	}
+	if len(received) != len(expected) {
+		return fmt.Errorf("received %d rows instead of %d", len(received), len(expected))
+	}
+	for i := range received {
+		if len(received[i]) != len(expected[0]) {
+			return fmt.Errorf("received a row of %d elements instead of %d", len(received[i]), len(expected[0]))
+		}
+	}
+	return nil
+}
+
 // Sends the message msg to the next node in the circuit based on the next TreeNode in Tree.List().
 func (p *ShufflingProtocol) sendToNext(msg interface{}) error {
 	err := p.SendTo(p.nextNodeInCircuit, msg)
-- 
2.43.0


From 3872bef66d044b8cd5c8e23a00110d3e732c4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 45/46] fix: deterministic tagging gave back another number of
 tags than it was asked for, which crashed the survey

---
 protocols/deterministic_tagging_protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index c84f25b..0d7e2aa 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -221,6 +221,10 @@ func (p *DeterministicTaggingProtocol) Dispatch() error {
 		return err
 	}
 
+	if p.IsRoot() && len(deterministicTaggingTarget.Data) != len(*p.TargetOfSwitch) {
+		return fmt.Errorf("received %d elements instead of %d", len(deterministicTaggingTarget.Data), len(*p.TargetOfSwitch))
+	}
+
 	startT = time.Now()
 	roundTotalComputation := libunlynx.StartTimer(p.Name() + "_DetTagging(DISPATCH)")
 
-- 
2.43.0


From 6c7fb49090e0a1430f329485820266516e07dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:25 +0000
Subject: [PATCH 46/46] fix: a survey creation without a source from another
 server crashed the server, a repeated one reset the survey

---
 services/service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/services/service.go b/services/service.go
index 95a9280..789c380 100644
--- a/services/service.go
+++ b/services/service.go
@@ -292,6 +292,14 @@ func (s *Service) createSurvey(recq *SurveyCreationQuery) (network.Message, erro
 	if err := s.checkSurveyCreationQuery(recq); err != nil {
 		return nil, err
 	}
+	if recq.IntraMessage {
+		if recq.Source == nil {
+			return nil, fmt.Errorf("invalid survey creation query: missing source")
+		}
+		if _, err := s.getSurvey(recq.SurveyID); err == nil {
+			return nil, fmt.Errorf("survey " + string(recq.SurveyID) + " already exists")
+		}
+	}
 
 	// if this server is the one receiving the query from the client
 	if !recq.IntraMessage {
-- 
2.43.0

