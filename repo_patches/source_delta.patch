From 021401734c75b62caa88a53a7f18bd7ab34c0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 01/19] fix: read v1 headers and payload fully from sources
 that deliver short reads

---
 internal/io/rapv1/util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..ea0bac3 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,7 +22,7 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
 		return -1, bytesRead, err
 	}
@@ -151,7 +151,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
 		return nil, bytesRead, err
@@ -163,7 +163,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 
 	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
 	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
+	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
-- 
2.43.0


From a3acf596c99bfda1abd778af8c1332293160549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 02/19] fix: do not take an empty read for a byte when reading
 v2 files

---
 format/io/load.go          | 2 +-
 format/io/reader.go        | 2 +-
 format/metadata/io.go      | 4 ++--
 internal/io/binary/util.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..de1dfad 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -196,7 +196,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..b892b48 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -80,7 +80,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -164,7 +164,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 
 func ReadProperty(b io.Reader) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
-- 
2.43.0


From 46144f026d3ce64ebeba039adacd886ed9348729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 03/19] fix: return the sink's error instead of panicking when
 it fails while a binary is written

---
 format/io/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..c064785 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,7 +304,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
 			panic("Binary data written was larger than size in signature")
 		}
-- 
2.43.0


From f63a67f799d35d5c2654fb630ed6e4d0ca6f0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 04/19] fix: report collections, times and metadata that can
 not be decoded instead of dropping them

---
 format/io/reader.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index de1dfad..24e914a 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -113,9 +113,18 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 		streamName, _, _ := binary.ReadString(er)
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		times, err := decodeTime(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		captureBody, _, err := binary.ReadBytesArray(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		stream, err := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 		allStreams[i] = stream
 	}
 
@@ -128,7 +137,10 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 		uri, _, _ := binary.ReadString(er)
 		refSize, _, _ := binary.ReadUvarint(er)
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
 	}
@@ -142,7 +154,10 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 		refSize, _, _ := binary.ReadUvarint(er)
 
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		allData := make([]byte, refSize)
 		io.ReadFull(er, allData)
-- 
2.43.0


From addc6291a0b7692a2c72470eb5904b604b217cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 05/19] fix: report dictionary indices and techniques a file
 does not define instead of panicking or guessing

---
 format/encoding/enum/enum.go   |  4 ++++
 format/encoding/event/event.go | 12 ++++++++++++
 format/encoding/float/float.go |  4 ++++
 format/io/reader.go            | 11 ++++++++++-
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..6c7a589 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -90,6 +91,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum member index out of range: %d", indeces)
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..0334d09 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -112,6 +116,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 			return nil, err
 		}
 
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event name index out of range: %d", eventNameIndex)
+		}
+
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
 			return nil, err
@@ -119,6 +127,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event metadata key index out of range: %d", metadataIndeces[metadataIndex])
+			}
+
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
diff --git a/format/encoding/float/float.go b/format/encoding/float/float.go
index f640343..d43d90d 100644
--- a/format/encoding/float/float.go
+++ b/format/encoding/float/float.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 
@@ -199,6 +200,9 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 	case BST16:
 		captures = decodeBST16(errReader, times)
 		break
+
+	default:
+		return nil, fmt.Errorf("Unknown float encoding technique: %d", int(encodingTechnique))
 	}
 
 	return float.NewCollection(name, captures), errReader.Error()
diff --git a/format/io/reader.go b/format/io/reader.go
index 24e914a..1b61515 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -78,6 +78,9 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata key index out of range: %d", key)
+		}
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -109,7 +112,13 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 	// read streams
 	allStreams := make([]format.CaptureCollection, numStreams)
 	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+		encoderIndex, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		if encoderIndex >= uint64(len(encoders)) {
+			return nil, er.TotalRead(), fmt.Errorf("encoder index out of range: %d", encoderIndex)
+		}
 
 		streamName, _, _ := binary.ReadString(er)
 
-- 
2.43.0


From cf0046ca643dc1816fa0af43d5dc6217c5648bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 06/19] fix: report collection data that ends before its last
 capture instead of repeating values

---
 format/encoding/enum/enum.go         | 10 ++++++++--
 format/encoding/euler/euler.go       | 14 ++++++++------
 format/encoding/euler/raw16.go       |  3 ++-
 format/encoding/euler/raw32.go       |  3 ++-
 format/encoding/euler/raw64.go       |  3 ++-
 format/encoding/position/oct24.go    |  3 ++-
 format/encoding/position/oct48.go    |  3 ++-
 format/encoding/position/position.go | 18 ++++++++++--------
 format/encoding/position/raw32.go    |  3 ++-
 format/encoding/position/raw64.go    |  3 ++-
 10 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index 6c7a589..87d3951 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -87,7 +87,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
@@ -99,7 +102,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	captures := make([]enum.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		value, _ := binary.ReadUvarint(reader)
+		value, err := binary.ReadUvarint(reader)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 797761b..949fb0d 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/euler"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 type StorageTechnique int
@@ -80,28 +81,29 @@ func decode(name string, data []byte, times []float64) (format.CaptureCollection
 	}
 
 	encodingTechnique := StorageTechnique(typeByte)
+	errReader := rapbinary.NewErrReader(reader)
 
 	switch encodingTechnique {
 	case Raw64:
-		captures, err := decodeRaw64(reader, times)
+		captures, err := decodeRaw64(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return euler.NewCollection(name, captures), nil
+		return euler.NewCollection(name, captures), errReader.Error()
 
 	case Raw32:
-		captures, err := decodeRaw32(reader, times)
+		captures, err := decodeRaw32(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return euler.NewCollection(name, captures), nil
+		return euler.NewCollection(name, captures), errReader.Error()
 
 	case Raw16:
-		captures, err := decodeRaw16(reader, times)
+		captures, err := decodeRaw16(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return euler.NewCollection(name, captures), nil
+		return euler.NewCollection(name, captures), errReader.Error()
 	}
 
 	return nil, fmt.Errorf("Unknown euler encoding technique: %d", int(encodingTechnique))
diff --git a/format/encoding/euler/raw16.go b/format/encoding/euler/raw16.go
index c7a858e..a86f596 100644
--- a/format/encoding/euler/raw16.go
+++ b/format/encoding/euler/raw16.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -41,7 +42,7 @@ func encodeRaw16(captures []euler.Capture) []byte {
 	return streamData.Bytes()
 }
 
-func decodeRaw16(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
+func decodeRaw16(streamData io.Reader, times []float64) ([]euler.Capture, error) {
 	// streamData := bytes.NewReader(captureData)
 
 	if len(times) == 1 {
diff --git a/format/encoding/euler/raw32.go b/format/encoding/euler/raw32.go
index 63c8c4b..4894999 100644
--- a/format/encoding/euler/raw32.go
+++ b/format/encoding/euler/raw32.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/euler"
 )
@@ -17,7 +18,7 @@ func encodeRaw32(captures []euler.Capture) []byte {
 	return streamData.Bytes()
 }
 
-func decodeRaw32(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
+func decodeRaw32(streamData io.Reader, times []float64) ([]euler.Capture, error) {
 	var x float32
 	var y float32
 	var z float32
diff --git a/format/encoding/euler/raw64.go b/format/encoding/euler/raw64.go
index 6383468..b9fa6d3 100644
--- a/format/encoding/euler/raw64.go
+++ b/format/encoding/euler/raw64.go
@@ -3,6 +3,7 @@ package euler
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/euler"
@@ -24,7 +25,7 @@ func encodeRaw64(captures []euler.Capture) []byte {
 	return streamData.Bytes()
 }
 
-func decodeRaw64(streamData *bytes.Reader, times []float64) ([]euler.Capture, error) {
+func decodeRaw64(streamData io.Reader, times []float64) ([]euler.Capture, error) {
 	// streamData := bytes.NewReader(captureData)
 
 	captures := make([]euler.Capture, len(times))
diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index 3f785cb..cf52d94 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -137,7 +138,7 @@ func encodeOct24(captures []position.Capture) ([]byte, error) {
 	return collectionData.Bytes(), nil
 }
 
-func decodeOct24(collectionData *bytes.Reader, times []float64) ([]position.Capture, error) {
+func decodeOct24(collectionData io.Reader, times []float64) ([]position.Capture, error) {
 	if len(times) == 0 {
 		return make([]position.Capture, 0), nil
 	}
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index 63b6cff..ad3e46c 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/EliCDavis/vector/vector3"
@@ -168,7 +169,7 @@ func encodeOct48(captures []position.Capture) ([]byte, error) {
 	return collectionData.Bytes(), nil
 }
 
-func decodeOct48(collectionData *bytes.Reader, times []float64) ([]position.Capture, error) {
+func decodeOct48(collectionData io.Reader, times []float64) ([]position.Capture, error) {
 	if len(times) == 0 {
 		return make([]position.Capture, 0), nil
 	}
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index a091998..c7ca435 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/position"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 type StorageTechnique int
@@ -97,35 +98,36 @@ func decode(streamName string, data []byte, times []float64) (format.CaptureColl
 	}
 
 	encodingTechnique := StorageTechnique(typeByte)
+	errReader := rapbinary.NewErrReader(reader)
 
 	switch encodingTechnique {
 	case Raw64:
-		captures, err := decodeRaw64(reader, times)
+		captures, err := decodeRaw64(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return position.NewCollection(streamName, captures), nil
+		return position.NewCollection(streamName, captures), errReader.Error()
 
 	case Raw32:
-		captures, err := decodeRaw32(reader, times)
+		captures, err := decodeRaw32(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return position.NewCollection(streamName, captures), nil
+		return position.NewCollection(streamName, captures), errReader.Error()
 
 	case Oct24:
-		captures, err := decodeOct24(reader, times)
+		captures, err := decodeOct24(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return position.NewCollection(streamName, captures), nil
+		return position.NewCollection(streamName, captures), errReader.Error()
 
 	case Oct48:
-		captures, err := decodeOct48(reader, times)
+		captures, err := decodeOct48(errReader, times)
 		if err != nil {
 			return nil, err
 		}
-		return position.NewCollection(streamName, captures), nil
+		return position.NewCollection(streamName, captures), errReader.Error()
 	}
 
 	return nil, fmt.Errorf("Unknown positional encoding technique: %d", int(encodingTechnique))
diff --git a/format/encoding/position/raw32.go b/format/encoding/position/raw32.go
index 366d86b..791ada7 100644
--- a/format/encoding/position/raw32.go
+++ b/format/encoding/position/raw32.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 
 	"github.com/recolude/rap/format/collection/position"
 )
@@ -19,7 +20,7 @@ func encodeRaw32(captures []position.Capture) []byte {
 	return streamData.Bytes()
 }
 
-func decodeRaw32(streamData *bytes.Reader, times []float64) ([]position.Capture, error) {
+func decodeRaw32(streamData io.Reader, times []float64) ([]position.Capture, error) {
 	captures := make([]position.Capture, len(times))
 	for i := 0; i < len(times); i++ {
 		var x float32
diff --git a/format/encoding/position/raw64.go b/format/encoding/position/raw64.go
index 4bf1e67..c583778 100644
--- a/format/encoding/position/raw64.go
+++ b/format/encoding/position/raw64.go
@@ -3,6 +3,7 @@ package position
 import (
 	"bytes"
 	"encoding/binary"
+	"io"
 	"math"
 
 	"github.com/recolude/rap/format/collection/position"
@@ -24,7 +25,7 @@ func encodeRaw64(captures []position.Capture) []byte {
 	return streamData.Bytes()
 }
 
-func decodeRaw64(streamData *bytes.Reader, times []float64) ([]position.Capture, error) {
+func decodeRaw64(streamData io.Reader, times []float64) ([]position.Capture, error) {
 	captures := make([]position.Capture, len(times))
 	buf := make([]byte, 8)
 	for i := 0; i < int(len(times)); i++ {
-- 
2.43.0


From 359a3ddc1eb70a46cfbce11fcd8917c84ae14df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 07/19] fix: give each distinct enum member of a JSON
 collection its own value

---
 format/parsing/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..5a6c901 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -275,6 +275,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 		if val, ok := allEnumEntriesMapping[enumEntry]; ok {
 			enumIndex = val
 		} else {
+			allEnumEntriesMapping[enumEntry] = enumIndex
 			allEnumEntries = append(allEnumEntries, enumEntry)
 		}
 
-- 
2.43.0


From b8ae60f9d2c2b079c448adbd817590968c4fa0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 08/19] fix: read JSON metadata values the conversion to
 properties rejected, corrupted or crashed on

---
 format/metadata/property.go |   8 +--
 format/metadata/utils.go    | 111 ++++++++++++++++++++++++++----------
 2 files changed, 84 insertions(+), 35 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..708e3c1 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -517,15 +517,11 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	block, err := getBlock(data)
 	if err != nil {
 		return err
 	}
-	newMp, ok := prop.(MetadataProperty)
-	if !ok {
-		return errors.New("unable to unmarshal MetadataProperty")
-	}
-	mp.block.mapping = newMp.block.mapping
+	mp.block.mapping = block.mapping
 	return nil
 }
 
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..ee3b650 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -3,37 +3,98 @@ package metadata
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
 
+var errMixedArray = errors.New("metadata array elements must all be of one type, and not be arrays")
+
+func getBlock(data map[string]interface{}) (Block, error) {
+	nestedProps := make(map[string]Property)
+	for key, val := range data {
+		np, err := getProperties(val)
+		if err != nil {
+			return EmptyBlock(), err
+		}
+		nestedProps[key] = np
+	}
+	return NewBlock(nestedProps), nil
+}
+
+// getArray builds an array out of JSON values and the properties they are on
+// their own. An array is stored with a single type for all of its elements, so
+// elements with different types are brought to the one their JSON type allows.
+func getArray(data []interface{}, props []Property) (Property, error) {
+	code := props[0].Code()
+	sameCode := true
+	for _, prop := range props {
+		sameCode = sameCode && prop.Code() == code
+	}
+
+	// 11 and 12 (blocks, times) are the last types an array can be built of
+	if sameCode && code <= 12 {
+		return newArrayProperty(code, props), nil
+	}
+
+	for i, item := range data {
+		switch d := item.(type) {
+		case string:
+			props[i] = NewStringProperty(d)
+
+		case float64:
+			if whole, ok := props[i].(Int32Property); ok {
+				props[i] = NewFloat32Property(float32(whole.i))
+			}
+
+		case map[string]interface{}:
+			block, err := getBlock(d)
+			if err != nil {
+				return nil, err
+			}
+			props[i] = NewMetadataProperty(block)
+
+		default:
+			return nil, errMixedArray
+		}
+
+		if props[i].Code() != props[0].Code() {
+			return nil, errMixedArray
+		}
+	}
+	return newArrayProperty(props[0].Code(), props), nil
+}
+
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
-		x, foundX := d["x"]
-		y, foundY := d["y"]
-		z, foundZ := d["z"]
+		x, foundX := d["x"].(float64)
+		y, foundY := d["y"].(float64)
+		z, foundZ := d["z"].(float64)
 		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+			return NewVector2Property(x, y), nil
 		}
 		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+			return NewVector3Property(x, y, z), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
+		block, err := getBlock(d)
+		if err != nil {
+			return nil, err
 		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return NewMetadataProperty(block), nil
 	case []interface{}:
+		if len(d) == 0 {
+			return NewStringArrayProperty(nil), nil
+		}
 		if _, ok := d[0].(bool); ok {
 			bools := make([]bool, 0, len(d))
 			for _, item := range d {
-				b, _ := item.(bool)
+				b, ok := item.(bool)
+				if !ok {
+					return nil, errMixedArray
+				}
 				bools = append(bools, b)
 			}
 			return NewBoolArrayProperty(bools), nil
@@ -46,19 +107,19 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			props = append(props, propItem)
 		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return getArray(d, props)
 	case string:
 		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
 			var p ByteProperty
 			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-				return nil, err
+				return NewStringProperty(d), nil
 			}
 			return p, nil
 		}
 		if strings.HasPrefix(d, HEX_PREFIX) {
 			b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
 			if err != nil {
-				return nil, err
+				return NewStringProperty(d), nil
 			}
 			return NewBinaryArrayProperty(b), nil
 		}
@@ -69,18 +130,10 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			return p, nil
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
+		return NewStringProperty(d), nil
 	case float64:
-		if d == float64(int64(d)) {
-			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-				return nil, err
-			}
-			return p, nil
+		if d == math.Trunc(d) && d >= math.MinInt32 && d <= math.MaxInt32 {
+			return NewIntProperty(int(d)), nil
 		}
 		var p Float32Property
 		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
@@ -94,5 +147,5 @@ func getProperties(data interface{}) (Property, error) {
 		}
 		return p, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("metadata can not contain the value %v", data)
 }
-- 
2.43.0


From b74ae82183e3f1b7791c598c718fc486d36b2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 09/19] fix: report JSON metadata that can not be read instead
 of dropping the whole block

---
 format/parsing/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 5a6c901..1edcb79 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,10 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	err = resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err != nil {
+		return metadata.EmptyBlock(), err
+	}
 
 	return resultingMetadata.Block(), nil
 }
-- 
2.43.0


From 0a43a488497a670bc4357a05f0993bc66615f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 10/19] fix: write valid JSON for any name and report metadata
 that JSON can not hold

---
 cmd/rap-cli/json.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..204c8f7 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,8 +1,10 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/recolude/rap/format"
@@ -10,6 +12,12 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
+func jsonString(value string) string {
+	// Marshalling a string never fails
+	data, _ := json.Marshal(value)
+	return string(data)
+}
+
 func toJson(out io.Writer, recording format.Recording, depth int) error {
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
@@ -21,10 +29,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonString(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonString(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -42,8 +50,8 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonString(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonString(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -52,6 +60,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 				for capIndex := 0; capIndex < eventCollection.Length(); capIndex++ {
 					event := eventCollection.CaptureAt(capIndex).(event.Capture)
 
+					if math.IsNaN(event.Time()) || math.IsInf(event.Time(), 0) {
+						return fmt.Errorf("can not build json from event time: %f", event.Time())
+					}
+
 					eventJSONData, err := metadata.NewMetadataProperty(event.Metadata()).MarshalJSON()
 					if err != nil {
 						return err
@@ -59,7 +71,7 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonString(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
@@ -96,7 +108,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			err := toJson(out, rec, depth+2)
+			if err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
-- 
2.43.0


From 712c07c5a1863e512b27daa0042e5d60016b8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 11/19] fix: report a CSV without a required column instead of
 panicking

---
 cmd/rap-cli/csv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..582a8f0 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -56,6 +57,10 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	if timeIndex == -1 || idIndex == -1 || nameIndex == -1 || posXIndex == -1 || posYIndex == -1 || posZIndex == -1 {
+		return nil, errors.New("csv requires the columns: time, id, name, x, y, z")
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
-- 
2.43.0


From 9151d3835c76d3848f53d69b3916d42febb2c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 12/19] fix: convert metadata times without overflowing for
 distant dates

---
 format/metadata/property.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 708e3c1..4648020 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -583,11 +583,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Unix(0, tp.microseconds*1000).Format(time.RFC3339Nano))
+	return json.Marshal(time.UnixMicro(tp.microseconds).Format(time.RFC3339Nano))
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-	return bson.MarshalValue(time.Unix(0, tp.microseconds*1000))
+	return bson.MarshalValue(time.UnixMicro(tp.microseconds))
 }
 
 // ARRAY =====================================================================
-- 
2.43.0


From ab366dbada26f84939313626a460f4418589617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 13/19] fix: report lengths a file does not have instead of
 panicking on their allocation

---
 format/io/reader.go          | 30 ++++++++++++-----------
 format/io/time.go            | 47 +++++++++++++++++++++---------------
 format/metadata/io.go        |  7 +++---
 internal/io/binary/bytes.go  | 38 ++++++++++++++++++++++++++---
 internal/io/binary/string.go |  9 +++----
 internal/io/binary/uint.go   |  6 ++---
 internal/io/rapv1/util.go    |  8 +++---
 7 files changed, 94 insertions(+), 51 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index 1b61515..a0e2dbe 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -110,8 +110,8 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 	numStreams, _, err := binary.ReadUvarint(er)
 
 	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
+	allStreams := make([]format.CaptureCollection, 0, binary.Preallocation(numStreams))
+	for i := uint64(0); i < numStreams; i++ {
 		encoderIndex, _, err := binary.ReadUvarint(er)
 		if err != nil {
 			return nil, er.TotalRead(), err
@@ -134,14 +134,14 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allStreams[i] = stream
+		allStreams = append(allStreams, stream)
 	}
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	binReferences := make([]format.BinaryReference, 0, binary.Preallocation(numBinaryReferences))
 
-	for i := 0; i < int(numBinaryReferences); i++ {
+	for i := uint64(0); i < numBinaryReferences; i++ {
 		name, _, _ := binary.ReadString(er)
 		uri, _, _ := binary.ReadString(er)
 		refSize, _, _ := binary.ReadUvarint(er)
@@ -151,14 +151,14 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 			return nil, er.TotalRead(), err
 		}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+		binReferences = append(binReferences, NewBinaryReference(name, uri, refSize, block))
 	}
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	binaries := make([]format.Binary, 0, binary.Preallocation(numBinaries))
 
-	for i := 0; i < int(numBinaries); i++ {
+	for i := uint64(0); i < numBinaries; i++ {
 		name, _, _ := binary.ReadString(er)
 		refSize, _, _ := binary.ReadUvarint(er)
 
@@ -168,22 +168,24 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 			return nil, er.TotalRead(), err
 		}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+		allData, _, err := binary.ReadBytes(er, refSize)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binaries[i] = NewBinary(name, allData, block)
+		binaries = append(binaries, NewBinary(name, allData, block))
 	}
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
+	allChildRecordings := make([]format.Recording, 0, binary.Preallocation(numRecordings))
+	for i := uint64(0); i < numRecordings; i++ {
 		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
 	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
diff --git a/format/io/time.go b/format/io/time.go
index 0276415..bb8bddc 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -126,32 +126,38 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 	return out.Write(dataBuffer.Bytes())
 }
 
-func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime64(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0, rapbinary.Preallocation(numCaptures))
+	for i := uint64(0); i < numCaptures; i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
-func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime32(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0, rapbinary.Preallocation(numCaptures))
+	for i := uint64(0); i < numCaptures; i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
 }
 
-func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
+func decodeTimeBST16(in io.Reader, numCaptures uint64) ([]float64, error) {
 	if numCaptures == 0 {
 		return make([]float64, 0), nil
 	}
@@ -172,17 +178,20 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
-	captures[0] = float64(startTime)
+	captures := make([]float64, 0, rapbinary.Preallocation(numCaptures))
+	captures = append(captures, float64(startTime))
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
-	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+	for i := uint64(1); i < numCaptures; i++ {
+		_, err = io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -206,13 +215,13 @@ func decodeTime(in io.Reader) ([]float64, error) {
 
 	switch encodingTechnique {
 	case Raw64:
-		return decodeTime64(in, int(numCaptures))
+		return decodeTime64(in, numCaptures)
 
 	case Raw32:
-		return decodeTime32(in, int(numCaptures))
+		return decodeTime32(in, numCaptures)
 
 	case BST16:
-		return decodeTimeBST16(in, int(numCaptures))
+		return decodeTimeBST16(in, numCaptures)
 	}
 
 	return nil, fmt.Errorf("unrecognized time encoding: %d", encodingTechnique)
diff --git a/format/metadata/io.go b/format/metadata/io.go
index b892b48..7e2e091 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -150,12 +150,13 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0, rapbin.Preallocation(len))
+		for i := uint64(0); i < len; i++ {
+			prop, err := readPropData(b, adjustedType)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..6c3049c 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -18,6 +18,39 @@ func BytesArrayToBytes(b []byte) []byte {
 	return buf.Bytes()
 }
 
+// maxPreallocation limits how much is allocated up front for a length that was
+// read from a stream, as nothing guarantees that the data is really there.
+const maxPreallocation = 1 << 16
+
+// Preallocation is the capacity to start with for count items that are still
+// to be read.
+func Preallocation(count uint64) int {
+	if count > maxPreallocation {
+		return maxPreallocation
+	}
+	return int(count)
+}
+
+// ReadBytes reads exactly count bytes, growing the buffer as they arrive.
+func ReadBytes(r io.Reader, count uint64) ([]byte, int, error) {
+	out := make([]byte, Preallocation(count))
+	read, err := io.ReadFull(r, out)
+	for err == nil && uint64(read) < count {
+		missing := count - uint64(read)
+		if missing > uint64(read) {
+			missing = uint64(read)
+		}
+		out = append(out, make([]byte, missing)...)
+		var more int
+		more, err = io.ReadFull(r, out[read:])
+		read += more
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	return out[:read], read, err
+}
+
 // ReadBytesArray first reads the length of the byte array, then reads in a
 // buffer of that length
 func ReadBytesArray(r io.Reader) ([]byte, int, error) {
@@ -26,13 +59,12 @@ func ReadBytesArray(r io.Reader) ([]byte, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
+	out, read, err := ReadBytes(r, len)
 	if err != nil && err != io.EOF {
 		return nil, read + bytesRead, err
 	}
 
-	if read != int(len) {
+	if uint64(read) != len {
 		return nil, read + bytesRead, io.ErrUnexpectedEOF
 	}
 
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..d964347 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -21,8 +21,7 @@ func ReadString(r io.Reader) (string, int, error) {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, moreBytes, err := ReadBytes(r, len)
 	if err != nil {
 		return "", bytesRead + moreBytes, err
 	}
@@ -49,14 +48,14 @@ func ReadStringArray(r io.Reader) ([]string, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0, Preallocation(len))
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..6cfd917 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -26,14 +26,14 @@ func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0, Preallocation(len))
+	for i := uint64(0); i < len; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ea0bac3..b84d718 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -17,6 +17,7 @@ import (
 	"github.com/recolude/rap/format/collection/event"
 	"github.com/recolude/rap/format/collection/position"
 	"github.com/recolude/rap/format/metadata"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
@@ -161,15 +162,14 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes", bytesRead)
 	}
 
-	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
+	compressedSize := binary.LittleEndian.Uint64(recordingSize)
+	compressedBytes, compressedBytesRead, err := rapbinary.ReadBytes(file, compressedSize)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	if int64(compressedBytesRead) != compressedSize {
+	if uint64(compressedBytesRead) != compressedSize {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes out of %d", bytesRead, compressedSize)
 	}
 
-- 
2.43.0


From 9aded326037e3aa685c5a2f0fc55cf371806cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 14/19] fix: quantise displacements and gaps against the single
 precision bounds the decoder reads

---
 format/encoding/position/oct24.go | 5 +++++
 format/encoding/position/oct48.go | 5 +++++
 format/io/time.go                 | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/format/encoding/position/oct24.go b/format/encoding/position/oct24.go
index cf52d94..7e32ff6 100644
--- a/format/encoding/position/oct24.go
+++ b/format/encoding/position/oct24.go
@@ -102,6 +102,11 @@ func encodeOct24(captures []position.Capture) ([]byte, error) {
 		}
 	}
 
+	// The bounds are stored in single precision. Quantize against what the
+	// decoder will read, otherwise their rounding adds up with every capture.
+	min = min.ToFloat32().ToFloat64()
+	max = max.ToFloat32().ToFloat64()
+
 	// Write min and max positions
 	binary.Write(collectionData, binary.LittleEndian, float32(min.X()))
 	binary.Write(collectionData, binary.LittleEndian, float32(min.Y()))
diff --git a/format/encoding/position/oct48.go b/format/encoding/position/oct48.go
index ad3e46c..0d4a951 100644
--- a/format/encoding/position/oct48.go
+++ b/format/encoding/position/oct48.go
@@ -133,6 +133,11 @@ func encodeOct48(captures []position.Capture) ([]byte, error) {
 		}
 	}
 
+	// The bounds are stored in single precision. Quantize against what the
+	// decoder will read, otherwise their rounding adds up with every capture.
+	min = min.ToFloat32().ToFloat64()
+	max = max.ToFloat32().ToFloat64()
+
 	// Write min and max positions
 	binary.Write(collectionData, binary.LittleEndian, float32(min.X()))
 	binary.Write(collectionData, binary.LittleEndian, float32(min.Y()))
diff --git a/format/io/time.go b/format/io/time.go
index bb8bddc..8a3a3c0 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -74,6 +74,9 @@ func encodeTimeBST16(out io.Writer, captures []format.Capture) error {
 	if len(captures) == 1 {
 		return nil
 	}
+	// Quantize against the single precision the decoder will read, otherwise
+	// its rounding adds up with every capture.
+	maxTimeDifference = float64(float32(maxTimeDifference))
 	binary.Write(out, binary.LittleEndian, float32(maxTimeDifference))
 
 	totalledQuantizedDuration := startingTime
-- 
2.43.0


From 00cfa60b1ac1a7fcce6c87d715372d306871af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 15/19] fix: report names, sizes and counts of a recording that
 can not be read

---
 format/io/reader.go | 48 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index a0e2dbe..ae31c5d 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -96,9 +96,15 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording name
 	recordingName, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording metadata
 	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -108,6 +114,9 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num streams
 	numStreams, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// read streams
 	allStreams := make([]format.CaptureCollection, 0, binary.Preallocation(numStreams))
@@ -120,7 +129,10 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 			return nil, er.TotalRead(), fmt.Errorf("encoder index out of range: %d", encoderIndex)
 		}
 
-		streamName, _, _ := binary.ReadString(er)
+		streamName, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		times, err := decodeTime(er)
 		if err != nil {
@@ -139,12 +151,24 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 	binReferences := make([]format.BinaryReference, 0, binary.Preallocation(numBinaryReferences))
 
 	for i := uint64(0); i < numBinaryReferences; i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		uri, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 		// Read Recording metadata
 		block, err := readRecordingMetadataBlock(er, metadataKeys)
 		if err != nil {
@@ -156,11 +180,20 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 	binaries := make([]format.Binary, 0, binary.Preallocation(numBinaries))
 
 	for i := uint64(0); i < numBinaries; i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		// Read Recording metadata
 		block, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -178,6 +211,9 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	allChildRecordings := make([]format.Recording, 0, binary.Preallocation(numRecordings))
 	for i := uint64(0); i < numRecordings; i++ {
-- 
2.43.0


From 34a0b7403d3cd58b6e9c4f496069164daf177564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 16/19] fix: write metadata times to JSON in UTC and report
 those RFC 3339 can not hold

---
 format/metadata/property.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 4648020..52b400c 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -583,7 +583,11 @@ func (tp *TimeProperty) UnmarshalJSON(b []byte) error {
 }
 
 func (tp TimeProperty) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.UnixMicro(tp.microseconds).Format(time.RFC3339Nano))
+	t := time.UnixMicro(tp.microseconds).UTC()
+	if t.Year() < 0 || t.Year() > 9999 {
+		return nil, fmt.Errorf("can not build json from time: %s", tp.String())
+	}
+	return json.Marshal(t.Format(time.RFC3339Nano))
 }
 
 func (tp TimeProperty) MarshalBSONValue() (bsontype.Type, []byte, error) {
-- 
2.43.0


From 433f7e65e097644d41350d9058c169e4fa28ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 17/19] fix: write every digit of whole float metadata to JSON

---
 format/metadata/property.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index 52b400c..2eb08ba 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -166,6 +166,11 @@ func (fp *Float32Property) UnmarshalJSON(b []byte) error {
 }
 
 func (fp Float32Property) MarshalJSON() ([]byte, error) {
+	// Whole numbers are read back as integers when they fit, so all of their
+	// digits matter, not only those that tell single precision values apart.
+	if f := float64(fp.f); f >= 1<<24 || f <= -(1<<24) {
+		return json.Marshal(f)
+	}
 	return json.Marshal(fp.f)
 }
 
-- 
2.43.0


From c3880606296b66b31bce3fa22eb626aec35d862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 18/19] fix: report JSON that could not be written instead of
 leaving part of it

---
 cmd/rap-cli/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/rap-cli/main.go b/cmd/rap-cli/main.go
index 6d3134b..ada9c5c 100644
--- a/cmd/rap-cli/main.go
+++ b/cmd/rap-cli/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -107,7 +108,12 @@ func BuildApp(in io.Reader, out io.Writer, errOut io.Writer) *cli.App {
 						return errors.New("can not build json from nil recording")
 					}
 
-					return toJson(c.App.Writer, recording, 0)
+					jsonDoc := bytes.Buffer{}
+					if err := toJson(&jsonDoc, recording, 0); err != nil {
+						return err
+					}
+					_, err := jsonDoc.WriteTo(c.App.Writer)
+					return err
 				},
 			},
 			{
-- 
2.43.0


From d539550cd4125e286ced9e2ebdb685e70fd0f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 19/19] fix: position, euler and enum encoders report what they
 can not encode instead of panicking

---
 format/encoding/enum/enum.go         | 5 ++++-
 format/encoding/euler/euler.go       | 7 ++++++-
 format/encoding/position/position.go | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index 87d3951..663ebb1 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -35,7 +35,10 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 	streamDataBuffers := make([]bytes.Buffer, len(streams))
 
 	for bufferIndex, stream := range streams {
-		enmstr := stream.(enum.Collection)
+		enmstr, ok := stream.(enum.Collection)
+		if !ok {
+			return nil, nil, errors.New("collection is not of type enum")
+		}
 
 		// Build mapping from enum member to index in header
 		indexMapping := make([]uint, len(enmstr.EnumMembers()))
diff --git a/format/encoding/euler/euler.go b/format/encoding/euler/euler.go
index 949fb0d..4520d50 100644
--- a/format/encoding/euler/euler.go
+++ b/format/encoding/euler/euler.go
@@ -2,6 +2,7 @@ package euler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -38,7 +39,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]euler.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(euler.Capture)
+		capture, ok := c.(euler.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type euler")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
diff --git a/format/encoding/position/position.go b/format/encoding/position/position.go
index c7ca435..0fd2856 100644
--- a/format/encoding/position/position.go
+++ b/format/encoding/position/position.go
@@ -2,6 +2,7 @@ package position
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/recolude/rap/format"
@@ -42,7 +43,11 @@ func (p Encoder) encode(stream format.CaptureCollection) ([]byte, error) {
 
 	castedCaptureData := make([]position.Capture, len(stream.Captures()))
 	for i, c := range stream.Captures() {
-		castedCaptureData[i] = c.(position.Capture)
+		capture, ok := c.(position.Capture)
+		if !ok {
+			return nil, errors.New("capture is not of type position")
+		}
+		castedCaptureData[i] = capture
 	}
 
 	streamData.WriteByte(byte(p.technique))
-- 
2.43.0

