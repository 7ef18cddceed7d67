From 3f24b1261557a145cae1548dc2d5a62c44a4ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 01/19] fix: wrap rotations exactly for angles of any magnitude

---
 format/encoding/euler/raw16.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index c7a858e..39cb568 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -10,7 +10,13 @@ import (
 )
 
 func wrapEulerAngle(angle float64) float64 {
-	return angle - (360 * math.Floor(angle/360))
+	// math.Mod is exact, where dividing and multiplying back is not for large
+	// angles.
+	wrapped := math.Mod(angle, 360)
+	if wrapped < 0 {
+		wrapped += 360
+	}
+	return wrapped
 }
 
 func encodeRaw16(captures []euler.Capture) []byte {
-- 
2.43.0


From 586fb3e4d6fe4891edf5618c790ac6aa17970772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 02/19] fix: decode 16 bit floats whose range exceeds single
 precision

---
 format/encoding/float/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index f640343..236b7f7 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -148,7 +148,7 @@ func decodeBST16(in io.Reader, times []float64) []float.Capture {
 	buffer := make([]byte, 2)
 	for i, time := range times {
 		in.Read(buffer)
-		value := rapbinary.BytesToUnisngedFloatBST(float64(min), float64(max-min), buffer)
+		value := rapbinary.BytesToUnisngedFloatBST(float64(min), float64(max)-float64(min), buffer)
 		captures[i] = float.NewCapture(time, value)
 	}
 
-- 
2.43.0


From a81698efc9a3c80bfc2d1f61678d9909ea2f2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 03/19] fix: load version 1 files delivered in pieces and do
 not trust their declared size

---
 internal/io/rapv1/util.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..14f2249 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,13 +22,9 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
-		return -1, bytesRead, err
-	}
-
-	if bytesRead != 4 {
-		return -1, bytesRead, fmt.Errorf("issue reading number of recordings, read %d bytes", bytesRead)
+		return -1, bytesRead, fmt.Errorf("issue reading number of recordings, read %d bytes: %w", bytesRead, err)
 	}
 
 	return int(binary.LittleEndian.Uint32(numberOfRecordings)), bytesRead, nil
@@ -151,25 +147,26 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
-		return nil, bytesRead, err
+		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes: %w", bytesRead, err)
 	}
 
-	if bytesReadFileSize != 8 {
-		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes", bytesRead)
+	compressedSize := binary.LittleEndian.Uint64(recordingSize)
+	if compressedSize > math.MaxInt64 {
+		return nil, bytesRead, fmt.Errorf("invalid recording size: %d", compressedSize)
 	}
 
-	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
-	bytesRead += compressedBytesRead
+	// The size is not to be trusted, memory is only used for bytes which are
+	// really there.
+	compressedBytes, err := ioutil.ReadAll(io.LimitReader(file, int64(compressedSize)))
+	bytesRead += len(compressedBytes)
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	if int64(compressedBytesRead) != compressedSize {
+	if uint64(len(compressedBytes)) != compressedSize {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes out of %d", bytesRead, compressedSize)
 	}
 
-- 
2.43.0


From bbd01333291e5a72ef85d1c3bc9d65c7f3179e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 04/19] fix: do not trust the lengths a stream declares nor
 assume whole deliveries

---
 internal/io/binary/bytes.go  | 42 +++++++++++++++++++++++++++++-------
 internal/io/binary/string.go |  9 ++++----
 internal/io/binary/uint.go   |  6 +++---
 internal/io/binary/util.go   |  2 +-
 4 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..e927cf9 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -26,17 +26,43 @@ func ReadBytesArray(r io.Reader) ([]byte, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
-	if err != nil && err != io.EOF {
-		return nil, read + bytesRead, err
-	}
+	out, read, err := ReadBytes(r, len)
+	return out, read + bytesRead, err
+}
 
-	if read != int(len) {
-		return nil, read + bytesRead, io.ErrUnexpectedEOF
+// ReadBytes reads exactly the number of bytes requested. The count typically
+// comes from the stream itself and so can not be trusted: the buffer only
+// grows as bytes are actually delivered.
+func ReadBytes(r io.Reader, count uint64) ([]byte, int, error) {
+	initial := count
+	if initial > 4096 {
+		initial = 4096
 	}
 
-	return out, read + bytesRead, nil
+	out := make([]byte, initial)
+	total := 0
+	for {
+		read, err := io.ReadFull(r, out[total:])
+		total += read
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return nil, total, err
+		}
+
+		if uint64(total) == count {
+			return out, total, nil
+		}
+
+		next := uint64(total) * 2
+		if next > count {
+			next = count
+		}
+		grown := make([]byte, next)
+		copy(grown, out)
+		out = grown
+	}
 }
 
 // func ArrayOfByteArraysToBytes(b [][]byte) []byte {
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..cace250 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -21,8 +21,7 @@ func ReadString(r io.Reader) (string, int, error) {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, moreBytes, err := ReadBytes(r, len)
 	if err != nil {
 		return "", bytesRead + moreBytes, err
 	}
@@ -49,14 +48,14 @@ func ReadStringArray(r io.Reader) ([]string, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..8cf08fc 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -26,14 +26,14 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0)
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
-- 
2.43.0


From 51ae8114279a0312eb68d1b7b036bc99453f6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 05/19] fix: bound the nesting and declared sizes of metadata
 being read

---
 format/metadata/io.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..5cb6c6c 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -9,6 +9,10 @@ import (
 	rapbin "github.com/recolude/rap/internal/io/binary"
 )
 
+// maxDepth is how deep a property read may nest blocks. Without a limit, a few
+// bytes per level are enough to exhaust the stack.
+const maxDepth = 10000
+
 func WriteProprty(writer io.Writer, property Property) (int, error) {
 	count, err := writer.Write([]byte{property.Code()})
 	if err != nil {
@@ -31,7 +35,11 @@ func readFloat64s(r io.Reader, count int) ([]float64, error) {
 	return outValues, nil
 }
 
-func readNestedMetadatablock(b io.Reader) (Block, error) {
+func readNestedMetadatablock(b io.Reader, depth int) (Block, error) {
+	if depth > maxDepth {
+		return EmptyBlock(), fmt.Errorf("metadata is nested deeper than %d levels", maxDepth)
+	}
+
 	metadataKeys, _, err := rapbin.ReadStringArray(b)
 	if err != nil {
 		return EmptyBlock(), err
@@ -40,7 +48,7 @@ func readNestedMetadatablock(b io.Reader) (Block, error) {
 	metadata := make(map[string]Property)
 
 	for _, key := range metadataKeys {
-		metadata[key], err = ReadProperty(b)
+		metadata[key], err = readProperty(b, depth)
 		if err != nil {
 			return EmptyBlock(), err
 		}
@@ -49,7 +57,7 @@ func readNestedMetadatablock(b io.Reader) (Block, error) {
 	return NewBlock(metadata), nil
 }
 
-func readPropData(b io.Reader, propertyType byte) (Property, error) {
+func readPropData(b io.Reader, propertyType byte, depth int) (Property, error) {
 	switch propertyType {
 	case 0:
 		str, _, err := rapbin.ReadString(b)
@@ -80,7 +88,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -100,7 +108,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		}
 		return NewVector3Property(vals[0], vals[1], vals[2]), nil
 	case 11:
-		metadataBlock, err := readNestedMetadatablock(b)
+		metadataBlock, err := readNestedMetadatablock(b, depth+1)
 		if err != nil {
 			return nil, err
 		}
@@ -150,23 +158,28 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0)
+		for i := uint64(0); i < len; i++ {
+			prop, err := readPropData(b, adjustedType, depth)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
 	return nil, fmt.Errorf("unrecognized property type code: %d", int(propertyType))
 }
 
-func ReadProperty(b io.Reader) (Property, error) {
+func readProperty(b io.Reader, depth int) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
-	return readPropData(b, propByte[0])
+	return readPropData(b, propByte[0], depth)
+}
+
+func ReadProperty(b io.Reader) (Property, error) {
+	return readProperty(b, 0)
 }
-- 
2.43.0


From 493bc4c4a030c3055b8def8ca8980059e54d7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 06/19] fix: refuse damaged or too deeply nested version 2
 recordings instead of inventing content

---
 format/io/load.go   |   2 +-
 format/io/reader.go | 200 +++++++++++++++++++++++++++++++++-----------
 format/io/time.go   |  48 ++++++-----
 format/io/writer.go |  10 ++-
 4 files changed, 185 insertions(+), 75 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..9a11786 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -12,6 +12,12 @@ import (
 	"github.com/recolude/rap/internal/io/rapv1"
 )
 
+// maxRecordingDepth is how deep recordings may nest inside one another. Without
+// a limit, a few bytes per level are enough to exhaust the stack.
+const maxRecordingDepth = 10000
+
+var errTooDeep = fmt.Errorf("recordings are nested deeper than %d levels", maxRecordingDepth)
+
 type Reader struct {
 	encoders []encoding.Encoder
 	in       io.Reader
@@ -78,6 +84,10 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata refers to key %d of %d", key, len(metadataKeys))
+		}
+
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -87,82 +97,169 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	return metadata.NewBlock(propMapping), nil
 }
 
-func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders []encoding.Encoder, headers [][]byte) (format.Recording, int, error) {
-	// in := bytes.NewReader(recordingData)
-	er := binary.NewErrReader(inStream)
+func readCollection(in io.Reader, encoders []encoding.Encoder, headers [][]byte) (format.CaptureCollection, error) {
+	encoderIndex, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
-	// Read Recording id
-	recordingID, _, err := binary.ReadString(er)
+	if encoderIndex >= uint64(len(encoders)) {
+		return nil, fmt.Errorf("collection refers to encoder %d of %d", encoderIndex, len(encoders))
+	}
 
-	// Read Recording name
-	recordingName, _, err := binary.ReadString(er)
+	streamName, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
+
+	times, err := decodeTime(in)
+	if err != nil {
+		return nil, err
+	}
+
+	captureBody, _, err := binary.ReadBytesArray(in)
+	if err != nil {
+		return nil, err
+	}
+
+	return encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+}
+
+func readBinaryReference(in io.Reader, metadataKeys []string) (format.BinaryReference, error) {
+	name, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
+
+	uri, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
+
+	refSize, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
 	// Read Recording metadata
-	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
+	block, err := readRecordingMetadataBlock(in, metadataKeys)
 	if err != nil {
-		return nil, er.TotalRead(), err
+		return nil, err
 	}
 
-	// read num streams
-	numStreams, _, err := binary.ReadUvarint(er)
+	return NewBinaryReference(name, uri, refSize, block), nil
+}
 
-	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+func readBinary(in io.Reader, metadataKeys []string) (format.Binary, error) {
+	name, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
 
-		streamName, _, _ := binary.ReadString(er)
+	refSize, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
-		allStreams[i] = stream
+	// Read Recording metadata
+	block, err := readRecordingMetadataBlock(in, metadataKeys)
+	if err != nil {
+		return nil, err
 	}
 
-	// read binary references
-	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	allData, _, err := binary.ReadBytes(in, refSize)
+	if err != nil {
+		return nil, err
+	}
 
-	for i := 0; i < int(numBinaryReferences); i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
-		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+	return NewBinary(name, allData, block), nil
+}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+func recursiveBuidRecordings(in io.Reader, metadataKeys []string, encoders []encoding.Encoder, headers [][]byte, depth int) (format.Recording, error) {
+	if depth > maxRecordingDepth {
+		return nil, errTooDeep
 	}
 
-	// read binaries
-	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	// Read Recording id
+	recordingID, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
+
+	// Read Recording name
+	recordingName, _, err := binary.ReadString(in)
+	if err != nil {
+		return nil, err
+	}
+
+	// Read Recording metadata
+	recordingMetadataBlock, err := readRecordingMetadataBlock(in, metadataKeys)
+	if err != nil {
+		return nil, err
+	}
+
+	// read num streams
+	numStreams, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
-	for i := 0; i < int(numBinaries); i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	// read streams
+	allStreams := make([]format.CaptureCollection, 0)
+	for i := uint64(0); i < numStreams; i++ {
+		stream, err := readCollection(in, encoders, headers)
+		if err != nil {
+			return nil, err
+		}
+		allStreams = append(allStreams, stream)
+	}
 
-		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+	// read binary references
+	numBinaryReferences, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+	binReferences := make([]format.BinaryReference, 0)
+	for i := uint64(0); i < numBinaryReferences; i++ {
+		ref, err := readBinaryReference(in, metadataKeys)
+		if err != nil {
+			return nil, err
+		}
+		binReferences = append(binReferences, ref)
+	}
 
-		binaries[i] = NewBinary(name, allData, block)
+	// read binaries
+	numBinaries, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
+
+	binaries := make([]format.Binary, 0)
+	for i := uint64(0); i < numBinaries; i++ {
+		bin, err := readBinary(in, metadataKeys)
+		if err != nil {
+			return nil, err
+		}
+		binaries = append(binaries, bin)
 	}
 
 	// read num recordings
-	numRecordings, _, err := binary.ReadUvarint(er)
+	numRecordings, _, err := binary.ReadUvarint(in)
+	if err != nil {
+		return nil, err
+	}
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
-		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
+	allChildRecordings := make([]format.Recording, 0)
+	for i := uint64(0); i < numRecordings; i++ {
+		childRec, err := recursiveBuidRecordings(in, metadataKeys, encoders, headers, depth+1)
 		if err != nil {
-			return nil, er.TotalRead(), err
+			return nil, err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
-	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
+	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), nil
 }
 
 func (r Reader) Read() (format.Recording, int, error) {
@@ -196,7 +293,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
@@ -225,8 +322,9 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	// Read off recordings
-	rec, bytesRead, err := recursiveBuidRecordings(readcloser, metdataKeys, encodersToUse, encoderHeaders)
-	totalBytesRead += bytesRead
+	er := binary.NewErrReader(readcloser)
+	rec, err := recursiveBuidRecordings(er, metdataKeys, encodersToUse, encoderHeaders, 0)
+	totalBytesRead += er.TotalRead()
 	if err != nil {
 		return nil, totalBytesRead, err
 	}
diff --git a/format/io/time.go b/format/io/time.go
index 0276415..d5b9b87 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -126,32 +126,38 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 	return out.Write(dataBuffer.Bytes())
 }
 
-func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime64(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
-func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime32(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
 }
 
-func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
+func decodeTimeBST16(in io.Reader, numCaptures uint64) ([]float64, error) {
 	if numCaptures == 0 {
 		return make([]float64, 0), nil
 	}
@@ -172,17 +178,19 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
-	captures[0] = float64(startTime)
+	captures := []float64{float64(startTime)}
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
-	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+	for i := uint64(1); i < numCaptures; i++ {
+		_, err := io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -192,7 +200,7 @@ func decodeTime(in io.Reader) ([]float64, error) {
 	typeByte := []byte{0}
 
 	// Read Storage Technique
-	_, err := in.Read(typeByte)
+	_, err := io.ReadFull(in, typeByte)
 	if err != nil {
 		return nil, err
 	}
@@ -206,13 +214,13 @@ func decodeTime(in io.Reader) ([]float64, error) {
 
 	switch encodingTechnique {
 	case Raw64:
-		return decodeTime64(in, int(numCaptures))
+		return decodeTime64(in, numCaptures)
 
 	case Raw32:
-		return decodeTime32(in, int(numCaptures))
+		return decodeTime32(in, numCaptures)
 
 	case BST16:
-		return decodeTimeBST16(in, int(numCaptures))
+		return decodeTimeBST16(in, numCaptures)
 	}
 
 	return nil, fmt.Errorf("unrecognized time encoding: %d", encodingTechnique)
diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..1abf5ad 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -328,11 +328,15 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 	return ew.TotalWritten(), newOffset, ew.err
 }
 
-func checkForNilInterfaces(recording format.Recording) error {
+func checkForNilInterfaces(recording format.Recording, depth int) error {
 	if recording == nil {
 		return errors.New("can not serialize recording with nil sub-recordings")
 	}
 
+	if depth > maxRecordingDepth {
+		return errTooDeep
+	}
+
 	for _, bin := range recording.BinaryReferences() {
 		if bin == nil {
 			return errors.New("can not serialize recording with nil binary references")
@@ -346,7 +350,7 @@ func checkForNilInterfaces(recording format.Recording) error {
 	}
 
 	for _, rec := range recording.Recordings() {
-		err := checkForNilInterfaces(rec)
+		err := checkForNilInterfaces(rec, depth+1)
 		if err != nil {
 			return err
 		}
@@ -362,7 +366,7 @@ func (w Writer) Write(recording format.Recording) (int, error) {
 		panic(errors.New("can not write nil recording"))
 	}
 
-	err := checkForNilInterfaces(recording)
+	err := checkForNilInterfaces(recording, 0)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 87f8818e49d1d2dac90b7bda96eac9e8af64f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 07/19] fix: refuse collection payloads that are cut short or
 refer to what is not there

---
 format/encoding/enum/enum.go      | 16 +++++++++--
 format/encoding/euler/raw16.go    | 27 +++++++++++++++---
 format/encoding/euler/raw32.go    | 15 ++++++++--
 format/encoding/euler/raw64.go    |  7 +++--
 format/encoding/event/event.go    | 12 ++++++++
 format/encoding/float/float.go    |  4 +++
 format/encoding/position/oct24.go | 46 +++++++++++++++++++++++++++++--
 format/encoding/position/oct48.go | 46 +++++++++++++++++++++++++++++--
 format/encoding/position/raw32.go | 15 ++++++++--
 format/encoding/position/raw64.go |  7 +++--
 10 files changed, 170 insertions(+), 25 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..7f520d9 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -86,18 +87,27 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum refers to member %d of %d", indeces, len(allEnumMembers))
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
 	captures := make([]enum.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		value, _ := binary.ReadUvarint(reader)
+		value, err := binary.ReadUvarint(reader)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
-	return enum.NewCollection(name, enumMembers, captures), reader.Error()
+	return enum.NewCollection(name, enumMembers, captures), nil
 }
diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index 39cb568..366db3f 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -55,20 +56,38 @@ func decodeRaw16(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 		var posY float32
 		var posZ float32
 		err := binary.Read(streamData, binary.LittleEndian, &posX)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(streamData, binary.LittleEndian, &posY)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(streamData, binary.LittleEndian, &posZ)
-		return []euler.Capture{euler.NewEulerZXYCapture(times[0], float64(posX), float64(posY), float64(posZ))}, err
+		if err != nil {
+			return nil, err
+		}
+		return []euler.Capture{euler.NewEulerZXYCapture(times[0], float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	captures := make([]euler.Capture, len(times))
 	buffer := make([]byte, 2)
 
 	for i := 0; i < len(times); i++ {
-		streamData.Read(buffer)
+		_, err := io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		x := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
-		streamData.Read(buffer)
+		_, err = io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		y := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
-		streamData.Read(buffer)
+		_, err = io.ReadFull(streamData, buffer)
+		if err != nil {
+			return nil, err
+		}
 		z := binaryutil.BytesToUnisngedFloatBST(0, 360, buffer)
 		captures[i] = euler.NewEulerZXYCapture(times[i], float64(x), float64(y), float64(z))
 	}
diff --git a/format/encoding/euler/raw32.go b/format/encoding/euler/raw32.go
index 63c8c4b..e696782 100644
--- a/format/encoding/euler/raw32.go
+++ b/format/encoding/euler/raw32.go
@@ -24,9 +24,18 @@ func decodeRaw32(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 
 	captures := make([]euler.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		binary.Read(streamData, binary.LittleEndian, &x)
-		binary.Read(streamData, binary.LittleEndian, &y)
-		binary.Read(streamData, binary.LittleEndian, &z)
+		err := binary.Read(streamData, binary.LittleEndian, &x)
+		if err != nil {
+			return nil, err
+		}
+		err = binary.Read(streamData, binary.LittleEndian, &y)
+		if err != nil {
+			return nil, err
+		}
+		err = binary.Read(streamData, binary.LittleEndian, &z)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = euler.NewEulerZXYCapture(times[i], float64(x), float64(y), float64(z))
 	}
 
diff --git a/format/encoding/euler/raw64.go b/format/encoding/euler/raw64.go
index 6383468..4308a98 100644
--- a/format/encoding/euler/raw64.go
+++ b/format/encoding/euler/raw64.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -30,19 +31,19 @@ func decodeRaw64(streamData *bytes.Reader, times []float64) ([]euler.Capture, er
 	captures := make([]euler.Capture, len(times))
 	buf := make([]byte, binary.MaxVarintLen64)
 	for i := 0; i < len(times); i++ {
-		_, err := streamData.Read(buf)
+		_, err := io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		x := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		y := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..2fc775f 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -112,6 +116,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 			return nil, err
 		}
 
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event refers to name %d of %d", eventNameIndex, len(eventNames))
+		}
+
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
 			return nil, err
@@ -119,6 +127,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event refers to key %d of %d", metadataIndeces[metadataIndex], len(metadataKeys))
+			}
+
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index 236b7f7..8ab7ba3 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 
@@ -199,6 +200,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 	case BST16:
 		captures = decodeBST16(errReader, times)
 		break
+
+	default:
+		return nil, fmt.Errorf("Unknown float encoding technique: %d", int(encodingTechnique))
 	}
 
 	return float.NewCollection(name, captures), errReader.Error()
diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index 3f785cb..0ea521d 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -147,9 +148,18 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		var posY float32
 		var posZ float32
 		err := binary.Read(collectionData, binary.LittleEndian, &posX)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(collectionData, binary.LittleEndian, &posY)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(collectionData, binary.LittleEndian, &posZ)
-		return []position.Capture{position.NewCapture(times[0], float64(posX), float64(posY), float64(posZ))}, err
+		if err != nil {
+			return nil, err
+		}
+		return []position.Capture{position.NewCapture(times[0], float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	var minX float32
@@ -163,14 +173,41 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	var startingZ float32
 
 	err := binary.Read(collectionData, binary.LittleEndian, &minX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &minY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &minZ)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxZ)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingZ)
+	if err != nil {
+		return nil, err
+	}
 	min := vector3.New[float64](float64(minX), float64(minY), float64(minZ))
 	max := vector3.New[float64](float64(maxX), float64(maxY), float64(maxZ))
 	starting := vector3.New[float64](float64(startingX), float64(startingY), float64(startingZ))
@@ -181,7 +218,10 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	currentPosition := starting
 	for i := 0; i < len(times); i++ {
 		if i > 0 {
-			collectionData.Read(octBytesBuffer)
+			_, err = io.ReadFull(collectionData, octBytesBuffer)
+			if err != nil {
+				return nil, err
+			}
 			bytesToOctCells24(octBuffer, octBytesBuffer)
 			v := OctCellsToVec3(min, max, octBuffer)
 			currentPosition = currentPosition.Add(v)
@@ -190,5 +230,5 @@ func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		captures[i] = position.NewCapture(times[i], currentPosition.X(), currentPosition.Y(), currentPosition.Z())
 	}
 
-	return captures, err
+	return captures, nil
 }
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index 63b6cff..097b77d 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -178,9 +179,18 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		var posY float32
 		var posZ float32
 		err := binary.Read(collectionData, binary.LittleEndian, &posX)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(collectionData, binary.LittleEndian, &posY)
+		if err != nil {
+			return nil, err
+		}
 		err = binary.Read(collectionData, binary.LittleEndian, &posZ)
-		return []position.Capture{position.NewCapture(float64(times[0]), float64(posX), float64(posY), float64(posZ))}, err
+		if err != nil {
+			return nil, err
+		}
+		return []position.Capture{position.NewCapture(float64(times[0]), float64(posX), float64(posY), float64(posZ))}, nil
 	}
 
 	var minX float32
@@ -194,14 +204,41 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	var startingZ float32
 
 	err := binary.Read(collectionData, binary.LittleEndian, &minX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &minY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &minZ)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &maxZ)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingX)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingY)
+	if err != nil {
+		return nil, err
+	}
 	err = binary.Read(collectionData, binary.LittleEndian, &startingZ)
+	if err != nil {
+		return nil, err
+	}
 	min := vector3.New[float64](float64(minX), float64(minY), float64(minZ))
 	max := vector3.New[float64](float64(maxX), float64(maxY), float64(maxZ))
 	starting := vector3.New[float64](float64(startingX), float64(startingY), float64(startingZ))
@@ -212,7 +249,10 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 	currentPosition := starting
 	for i := 0; i < len(times); i++ {
 		if i > 0 {
-			collectionData.Read(octBytesBuffer)
+			_, err = io.ReadFull(collectionData, octBytesBuffer)
+			if err != nil {
+				return nil, err
+			}
 			bytesToOctCells48(octBuffer, octBytesBuffer)
 			v := OctCellsToVec3(min, max, octBuffer)
 			currentPosition = currentPosition.Add(v)
@@ -221,5 +261,5 @@ func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capt
 		captures[i] = position.NewCapture(times[i], currentPosition.X(), currentPosition.Y(), currentPosition.Z())
 	}
 
-	return captures, err
+	return captures, nil
 }
diff --git a/format/encoding/position/raw32.go b/format/encoding/position/raw32.go
index 366d86b..bc92182 100644
--- a/format/encoding/position/raw32.go
+++ b/format/encoding/position/raw32.go
@@ -26,9 +26,18 @@ func decodeRaw32(streamData *bytes.Reader, times []float64) ([]position.Capture,
 		var y float32
 		var z float32
 
-		binary.Read(streamData, binary.LittleEndian, &x)
-		binary.Read(streamData, binary.LittleEndian, &y)
-		binary.Read(streamData, binary.LittleEndian, &z)
+		err := binary.Read(streamData, binary.LittleEndian, &x)
+		if err != nil {
+			return nil, err
+		}
+		err = binary.Read(streamData, binary.LittleEndian, &y)
+		if err != nil {
+			return nil, err
+		}
+		err = binary.Read(streamData, binary.LittleEndian, &z)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = position.NewCapture(times[i], float64(x), float64(y), float64(z))
 	}
 
diff --git a/format/encoding/position/raw64.go b/format/encoding/position/raw64.go
index 4bf1e67..e17493b 100644
--- a/format/encoding/position/raw64.go
+++ b/format/encoding/position/raw64.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/position"
@@ -28,19 +29,19 @@ func decodeRaw64(streamData *bytes.Reader, times []float64) ([]position.Capture,
 	captures := make([]position.Capture, len(times))
 	buf := make([]byte, 8)
 	for i := 0; i < int(len(times)); i++ {
-		_, err := streamData.Read(buf)
+		_, err := io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		x := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
 		y := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 
-		_, err = streamData.Read(buf)
+		_, err = io.ReadFull(streamData, buf)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0ad21a7582a83d1c4de8cbd35d73f3b4225d3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 08/19] fix: report a failing sink instead of panicking when
 writing a binary

---
 format/io/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 1abf5ad..1316b4a 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,9 +304,12 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
-			panic("Binary data written was larger than size in signature")
+			return ew.TotalWritten(), -1, fmt.Errorf("binary %q offered %d bytes of data instead of %d", bin.Name(), actualbinaryWritten, bin.Size())
 		}
 	}
 
-- 
2.43.0


From 079dec405088fa3058c3a6730cf8c403dcfa732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 09/19] fix: report unusable metadata and reuse members when
 importing JSON

---
 format/parsing/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..575ffc2 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,9 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err := resultingMetadata.UnmarshalJSON([]byte(metadataNode.String())); err != nil {
+		return metadata.EmptyBlock(), fmt.Errorf("unable to parse metadata: %w", err)
+	}
 
 	return resultingMetadata.Block(), nil
 }
@@ -276,6 +278,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 			enumIndex = val
 		} else {
 			allEnumEntries = append(allEnumEntries, enumEntry)
+			allEnumEntriesMapping[enumEntry] = enumIndex
 		}
 
 		captures[i] = enum.NewCapture(time, enumIndex)
-- 
2.43.0


From db6cd32026a67b43668a2c16f1af4aaf4563ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 10/19] fix: read every metadata value from JSON as it stands
 or refuse it

---
 format/metadata/property.go |  22 +++--
 format/metadata/utils.go    | 191 ++++++++++++++++++++++++------------
 2 files changed, 144 insertions(+), 69 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..178d39e 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -281,6 +281,9 @@ func (bp *ByteProperty) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(b) != 1 {
+		return fmt.Errorf("byte can not be read from %q", data)
+	}
 	bp.b = b[0]
 	return nil
 }
@@ -517,15 +520,11 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	block, err := getBlock(data)
 	if err != nil {
 		return err
 	}
-	newMp, ok := prop.(MetadataProperty)
-	if !ok {
-		return errors.New("unable to unmarshal MetadataProperty")
-	}
-	mp.block.mapping = newMp.block.mapping
+	mp.block = block
 	return nil
 }
 
@@ -638,6 +637,10 @@ func (ap *ArrayProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
+	if len(data) == 0 {
+		ap.props = []Property{}
+		return nil
+	}
 	prop, err := getProperties(data)
 	if err != nil {
 		return err
@@ -744,6 +747,13 @@ func (apr *ArrayPropertyRaw) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	// Some raw arrays share their JSON with a property of another type.
+	if single, ok := prop.(ByteProperty); ok {
+		prop = NewBinaryArrayProperty([]byte{single.b})
+	}
+	if array, ok := data.([]interface{}); ok && len(array) == 0 {
+		prop = NewBoolArrayProperty(nil)
+	}
 	newApr, ok := prop.(ArrayPropertyRaw)
 	if !ok {
 		return errors.New("unable to unmarshal MetadataProperty")
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..add1f00 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -2,8 +2,10 @@ package metadata
 
 import (
 	"encoding/hex"
-	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -11,88 +13,151 @@ import (
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
-		x, foundX := d["x"]
-		y, foundY := d["y"]
-		z, foundZ := d["z"]
+		x, foundX := d["x"].(float64)
+		y, foundY := d["y"].(float64)
+		z, foundZ := d["z"].(float64)
 		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+			return NewVector2Property(x, y), nil
 		}
 		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+			return NewVector3Property(x, y, z), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
+		block, err := getBlock(d)
+		if err != nil {
+			return nil, err
 		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return NewMetadataProperty(block), nil
 	case []interface{}:
-		if _, ok := d[0].(bool); ok {
-			bools := make([]bool, 0, len(d))
-			for _, item := range d {
-				b, _ := item.(bool)
-				bools = append(bools, b)
+		return getArray(d)
+	case string:
+		if strings.HasPrefix(d, HEX_PREFIX) {
+			if b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX)); err == nil {
+				if len(b) == 1 {
+					return NewByteProperty(b[0]), nil
+				}
+				return NewBinaryArrayProperty(b), nil
 			}
-			return NewBoolArrayProperty(bools), nil
 		}
-		props := make([]Property, 0, len(d))
-		for _, item := range d {
-			propItem, err := getProperties(item)
-			if err != nil {
-				return nil, err
+		if t, err := time.Parse(time.RFC3339Nano, d); err == nil {
+			return NewTimeProperty(t), nil
+		}
+		return NewStringProperty(d), nil
+	case float64:
+		if d == math.Trunc(d) && d >= math.MinInt32 && d <= math.MaxInt32 {
+			return NewIntProperty(int(d)), nil
+		}
+		return getFloat32(d)
+	case bool:
+		return NewBoolProperty(d), nil
+	}
+	return nil, fmt.Errorf("metadata can not represent %v", data)
+}
+
+func getBlock(data map[string]interface{}) (Block, error) {
+	block := EmptyBlock()
+	for key, val := range data {
+		prop, err := getProperties(val)
+		if err != nil {
+			return block, err
+		}
+		block.mapping[key] = prop
+	}
+	return block, nil
+}
+
+// getFloat32 rounds fractions to single precision, but refuses to alter an
+// integer.
+func getFloat32(d float64) (Float32Property, error) {
+	f, err := strconv.ParseFloat(strconv.FormatFloat(d, 'g', -1, 64), 32)
+	if err != nil {
+		return Float32Property{}, fmt.Errorf("metadata can not represent %v: %w", d, err)
+	}
+	if d == math.Trunc(d) && f != d {
+		if shortest, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'g', -1, 32), 64); shortest != d {
+			return Float32Property{}, fmt.Errorf("metadata can not represent the integer %v", d)
+		}
+	}
+	return NewFloat32Property(float32(f)), nil
+}
+
+// getArray builds the array property which can hold every one of the items.
+func getArray(items []interface{}) (Property, error) {
+	if len(items) == 0 {
+		return NewStringArrayProperty(nil), nil
+	}
+
+	sameCode := true
+	props := make([]Property, len(items))
+	for i, item := range items {
+		prop, err := getProperties(item)
+		if err != nil {
+			return nil, err
+		}
+		props[i] = prop
+		sameCode = sameCode && prop.Code() == props[0].Code()
+	}
+
+	switch items[0].(type) {
+	case bool:
+		bools := make([]bool, len(items))
+		for i, item := range items {
+			b, ok := item.(bool)
+			if !ok {
+				return nil, errors.New("metadata array mixes booleans with other types")
 			}
-			props = append(props, propItem)
+			bools[i] = b
 		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return NewBoolArrayProperty(bools), nil
+
 	case string:
-		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
-			var p ByteProperty
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-				return nil, err
-			}
-			return p, nil
+		if sameCode && props[0].Code() < newArrayProperty(0, nil).Code() {
+			break
 		}
-		if strings.HasPrefix(d, HEX_PREFIX) {
-			b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
-			if err != nil {
-				return nil, err
+		strs := make([]string, len(items))
+		for i, item := range items {
+			s, ok := item.(string)
+			if !ok {
+				return nil, errors.New("metadata array mixes text with other types")
 			}
-			return NewBinaryArrayProperty(b), nil
+			strs[i] = s
 		}
-		if _, err := time.Parse(time.RFC3339Nano, d); err == nil {
-			var p TimeProperty
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
+		return NewStringArrayProperty(strs), nil
+
+	case float64:
+		if sameCode {
+			break
+		}
+		for i, item := range items {
+			d, ok := item.(float64)
+			if !ok {
+				return nil, errors.New("metadata array mixes numbers with other types")
+			}
+			f, err := getFloat32(d)
+			if err != nil {
 				return nil, err
 			}
-			return p, nil
+			props[i] = f
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
+
+	case map[string]interface{}:
+		if sameCode {
+			break
 		}
-		return p, nil
-	case float64:
-		if d == float64(int64(d)) {
-			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
+		for i, item := range items {
+			m, ok := item.(map[string]interface{})
+			if !ok {
+				return nil, errors.New("metadata array mixes objects with other types")
+			}
+			block, err := getBlock(m)
+			if err != nil {
 				return nil, err
 			}
-			return p, nil
+			props[i] = NewMetadataProperty(block)
 		}
-		var p Float32Property
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
-	case bool:
-		var p BoolProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
+
+	default:
+		return nil, errors.New("metadata can not represent arrays of arrays")
 	}
-	return nil, nil
+
+	return newArrayProperty(props[0].Code(), props), nil
 }
-- 
2.43.0


From f0524146089eac4d4d401d9a2ca0a08db50a6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 11/19] fix: state timestamps of any magnitude and zone exactly

---
 format/metadata/property.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 178d39e..755ec63 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -586,11 +586,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Unix(0, tp.microseconds*1000).Format(time.RFC3339Nano))
+	return time.UnixMicro(tp.microseconds).UTC().MarshalJSON()
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-	return bson.MarshalValue(time.Unix(0, tp.microseconds*1000))
+	return bson.MarshalValue(time.UnixMicro(tp.microseconds))
 }
 
 // ARRAY =====================================================================
-- 
2.43.0


From 0eed5f238c15f9878666d051b88d2ca3fb284a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 12/19] fix: export valid JSON or report why that is impossible

---
 cmd/rap-cli/json.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..96031b4 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/recolude/rap/format"
@@ -10,6 +12,12 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
+// jsonString quotes text for use in json
+func jsonString(text string) string {
+	quoted, _ := json.Marshal(text) // strings never fail
+	return string(quoted)
+}
+
 func toJson(out io.Writer, recording format.Recording, depth int) error {
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
@@ -21,10 +29,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonString(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonString(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -42,8 +50,8 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonString(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonString(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -51,6 +59,9 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 			if ok {
 				for capIndex := 0; capIndex < eventCollection.Length(); capIndex++ {
 					event := eventCollection.CaptureAt(capIndex).(event.Capture)
+					if math.IsNaN(event.Time()) || math.IsInf(event.Time(), 0) {
+						return fmt.Errorf("json can not represent an event's time of %f", event.Time())
+					}
 
 					eventJSONData, err := metadata.NewMetadataProperty(event.Metadata()).MarshalJSON()
 					if err != nil {
@@ -59,7 +70,7 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonString(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
@@ -96,7 +107,9 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			if err := toJson(out, rec, depth+2); err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
-- 
2.43.0


From f12e5f4a0903a721476ba0362ee785f6546d2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 13/19] fix: fail when a command's output can not be written

---
 cmd/rap-cli/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index 6d3134b..96518c3 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -68,8 +69,10 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return err
 					}
 
-					printSummary(c.App.Writer, recording, size)
-					return nil
+					summary := bytes.Buffer{}
+					printSummary(&summary, recording, size)
+					_, err = summary.WriteTo(c.App.Writer)
+					return err
 				},
 			},
 			{
@@ -107,7 +110,12 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return errors.New("can not build json from nil recording")
 					}
 
-					return toJson(c.App.Writer, recording, 0)
+					jsonData := bytes.Buffer{}
+					if err := toJson(&jsonData, recording, 0); err != nil {
+						return err
+					}
+					_, err := jsonData.WriteTo(c.App.Writer)
+					return err
 				},
 			},
 			{
-- 
2.43.0


From f41029fef6f80b5e6f4c5c604c1522b559bf26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 14/19] fix: refuse CSV files which lack a required column

---
 cmd/rap-cli/csv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..694da55 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -56,6 +57,10 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	if timeIndex < 0 || idIndex < 0 || nameIndex < 0 || posXIndex < 0 || posYIndex < 0 || posZIndex < 0 {
+		return nil, errors.New("csv requires the columns time, id, name, x, y and z")
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
-- 
2.43.0


From 669f822ac7f471aa47789e755ad18e1c0517f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 15/19] fix: import sizes of references exactly as JSON states
 them

---
 format/parsing/json.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 575ffc2..6c0d029 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -1,6 +1,8 @@
 package parsing
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"strconv"
@@ -447,5 +449,34 @@ func FromJSON(jsonData []byte) (format.Recording, error) {
 	if err != nil {
 		return nil, err
 	}
+
+	var exact interface{}
+	decoder := json.NewDecoder(bytes.NewReader(jsonData))
+	decoder.UseNumber()
+	if err := decoder.Decode(&exact); err != nil {
+		return nil, err
+	}
+	keepExactSizes(rootObj.Data(), exact)
+
 	return parseRecordingFromJSON(rootObj)
 }
+
+// keepExactSizes replaces integer sizes, which might have been rounded when
+// interpreted as a float64, with the number as it stands in the document.
+func keepExactSizes(parsed interface{}, exact interface{}) {
+	switch node := parsed.(type) {
+	case map[string]interface{}:
+		for key, exactChild := range exact.(map[string]interface{}) {
+			number, isNumber := exactChild.(json.Number)
+			if _, err := strconv.Atoi(number.String()); key == "size" && isNumber && err == nil {
+				node[key] = number
+				continue
+			}
+			keepExactSizes(node[key], exactChild)
+		}
+	case []interface{}:
+		for i, exactChild := range exact.([]interface{}) {
+			keepExactSizes(node[i], exactChild)
+		}
+	}
+}
-- 
2.43.0


From e6ec331f3f49013c6798c6a61b05c9814ba07fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 16/19] fix: refuse collections of foreign types with an error
 instead of crashing

---
 format/encoding/enum/enum.go         | 5 ++++-
 format/encoding/euler/euler.go       | 7 ++++++-
 format/encoding/position/position.go | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index 7f520d9..e12ef77 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -35,7 +35,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 	streamDataBuffers := make([]bytes.Buffer, len(streams))
 
 	for bufferIndex, stream := range streams {
-		enmstr := stream.(enum.Collection)
+		enmstr, ok := stream.(interface{ EnumMembers() []string })
+		if !ok {
+			return nil, nil, errors.New("collection does not have enum members")
+		}
 
 		// Build mapping from enum member to index in header
 		indexMapping := make([]uint, len(enmstr.EnumMembers()))
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 797761b..9ccf28b 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -2,6 +2,7 @@ package euler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -37,7 +38,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]euler.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(euler.Capture)
+		capture, ok := c.(euler.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type euler")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index a091998..076b9ca 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -2,6 +2,7 @@ package position
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -41,7 +42,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]position.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(position.Capture)
+		capture, ok := c.(position.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type position")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
-- 
2.43.0


From f56fef1c7438c22ab4edca55776f48d77097627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 17/19] fix: refuse to write metadata nested deeper than can be
 read back

---
 format/encoding/event/event.go |  6 ++++--
 format/io/writer.go            | 17 +++++++++++++----
 format/metadata/io.go          | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 2fc775f..0a88c6a 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -59,8 +59,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 					eventKeysSet[key] = len(eventKeysSet)
 				}
 				allKeyIndxes[keyCount] = uint(eventKeysSet[key])
-				allValueDataBuffer.WriteByte(val.Code())
-				allValueDataBuffer.Write(val.Data())
+				_, err := metadata.WriteProprty(&allValueDataBuffer, val)
+				if err != nil {
+					return nil, nil, err
+				}
 				keyCount++
 			}
 
diff --git a/format/io/writer.go b/format/io/writer.go
index 1316b4a..54e504c 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -192,7 +192,10 @@ func writeMetadata(out io.Writer, keyMappingToIndex map[string]int, block metada
 	for key, val := range block.Mapping() {
 		metadataIndices[i] = uint(keyMappingToIndex[key])
 
-		metadata.WriteProprty(&metadataValuesBuffer, val)
+		_, err := metadata.WriteProprty(&metadataValuesBuffer, val)
+		if err != nil {
+			return 0, err
+		}
 		i++
 	}
 
@@ -251,7 +254,9 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 	ew.Write(rapbinary.StringToBytes(recording.Name()))
 
 	// Write metadata
-	writeMetadata(ew, keyMappingToIndex, recording.Metadata())
+	if _, err := writeMetadata(ew, keyMappingToIndex, recording.Metadata()); err != nil {
+		return ew.TotalWritten(), -1, err
+	}
 
 	// Write number of streams
 	numStreams := make([]byte, binary.MaxVarintLen64)
@@ -286,7 +291,9 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 		read = binary.PutUvarint(refSize, ref.Size())
 		ew.Write(refSize[:read])
 
-		writeMetadata(ew, keyMappingToIndex, ref.Metadata())
+		if _, err := writeMetadata(ew, keyMappingToIndex, ref.Metadata()); err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 	}
 
 	// Write number of binaries
@@ -302,7 +309,9 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 		read = binary.PutUvarint(refSize, bin.Size())
 		ew.Write(refSize[:read])
 
-		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
+		if _, err := writeMetadata(ew, keyMappingToIndex, bin.Metadata()); err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 
 		actualbinaryWritten, err := io.Copy(ew, bin.Data())
 		if err != nil {
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 5cb6c6c..aa092bb 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -13,7 +13,37 @@ import (
 // bytes per level are enough to exhaust the stack.
 const maxDepth = 10000
 
+var errTooDeep = fmt.Errorf("metadata is nested deeper than %d levels", maxDepth)
+
+// checkDepth refuses properties which nest blocks too deep to be read back.
+func checkDepth(property Property, depth int) error {
+	switch p := property.(type) {
+	case interface{ Block() Block }:
+		if depth+1 > maxDepth {
+			return errTooDeep
+		}
+		for _, val := range p.Block().Mapping() {
+			if err := checkDepth(val, depth+1); err != nil {
+				return err
+			}
+		}
+	case ArrayProperty:
+		for _, val := range p.props {
+			if err := checkDepth(val, depth); err != nil {
+				return err
+			}
+		}
+	case *ArrayProperty:
+		return checkDepth(*p, depth)
+	}
+	return nil
+}
+
 func WriteProprty(writer io.Writer, property Property) (int, error) {
+	if err := checkDepth(property, 0); err != nil {
+		return 0, err
+	}
+
 	count, err := writer.Write([]byte{property.Code()})
 	if err != nil {
 		return count, err
@@ -37,7 +67,7 @@ func readFloat64s(r io.Reader, count int) ([]float64, error) {
 
 func readNestedMetadatablock(b io.Reader, depth int) (Block, error) {
 	if depth > maxDepth {
-		return EmptyBlock(), fmt.Errorf("metadata is nested deeper than %d levels", maxDepth)
+		return EmptyBlock(), errTooDeep
 	}
 
 	metadataKeys, _, err := rapbin.ReadStringArray(b)
-- 
2.43.0


From d216ebba789b06260897d1db9b7ef6e1bcea7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 18/19] fix: a recording without captures lasts no time

---
 format/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/util.go b/format/util.go
index d71d16b..24c382d 100644
--- a/format/util.go
+++ b/format/util.go
@@ -49,5 +49,10 @@ func RecordingEnd(rec Recording) float64 {
 func RecordingDuration(rec Recording) float64 {
 	min := RecordingStart(rec)
 	max := RecordingEnd(rec)
+
+	// Nothing has been captured
+	if math.IsInf(min, 1) && math.IsInf(max, -1) {
+		return 0
+	}
 	return max - min
 }
-- 
2.43.0


From f786b498deb60462c4c726871c707fdfacb5fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 19/19] fix: treat numbers beyond 32 bits alike on every
 machine

---
 format/encoding/enum/enum.go | 6 ++++++
 format/io/reader.go          | 2 +-
 format/parsing/json.go       | 4 ++--
 internal/io/binary/uint.go   | 8 +++++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index e12ef77..79a8fef 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -109,6 +109,12 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 		if err != nil {
 			return nil, err
 		}
+
+		// Values are written as the 64 bits of their two's complement, which
+		// an int need not hold everywhere.
+		if int64(int(value)) != int64(value) {
+			return nil, fmt.Errorf("enum value %d is out of range", int64(value))
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
diff --git a/format/io/reader.go b/format/io/reader.go
index 9a11786..6eed023 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -54,7 +54,7 @@ func (r Reader) readEncoders() ([]encoding.Encoder, int, error) {
 		found := false
 		for _, registeredEncoder := range r.encoders {
 			if registeredEncoder.Signature() == desiredEncoderSignature {
-				if registeredEncoder.Version() >= uint(encoderVersions[i]) {
+				if uint64(registeredEncoder.Version()) >= encoderVersions[i] {
 					encoders[i] = registeredEncoder
 					found = true
 				} else {
diff --git a/format/parsing/json.go b/format/parsing/json.go
index 6c0d029..5553848 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -99,7 +99,7 @@ func parseReferenceFromJSON(jsonObj *gabs.Container) (format.BinaryReference, er
 		return nil, fmt.Errorf("reference requires a size property")
 	}
 
-	size, err := strconv.Atoi(sizeNode.String())
+	size, err := strconv.ParseInt(sizeNode.String(), 10, 64)
 	if err != nil {
 		return nil, fmt.Errorf("reference size must be int")
 	}
@@ -468,7 +468,7 @@ func keepExactSizes(parsed interface{}, exact interface{}) {
 	case map[string]interface{}:
 		for key, exactChild := range exact.(map[string]interface{}) {
 			number, isNumber := exactChild.(json.Number)
-			if _, err := strconv.Atoi(number.String()); key == "size" && isNumber && err == nil {
+			if _, err := strconv.ParseInt(number.String(), 10, 64); key == "size" && isNumber && err == nil {
 				node[key] = number
 				continue
 			}
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 8cf08fc..2dee2de 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
@@ -33,7 +34,12 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out = append(out, uint(str))
+
+		value := uint(str)
+		if uint64(value) != str {
+			return nil, bytesRead, fmt.Errorf("number %d is out of range", str)
+		}
+		out = append(out, value)
 	}
 
 	return out, bytesRead, nil
-- 
2.43.0

