From 5684c665955479e905b71b260f0d28c7c16d012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 01/18] fix: propagate write errors of slice elements and
 varints from Marshal

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From ac210cf748a0f26bb57b44c13ddbbdd13455c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 02/18] fix: reject box sizes smaller than the header or beyond
 the largest offset

---
 box_info.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..f14a1f1 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,7 +142,8 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	// the box must contain its own header, and its end must be a valid offset
+	if bi.Size < bi.HeaderSize || bi.Size > math.MaxInt64-bi.Offset {
 		return nil, fmt.Errorf("invalid size")
 	}
 
-- 
2.43.0


From 1db3036612fd014eea488102bf101ea67ae7dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 03/18] fix: avoid integer overflow of NAL unit offsets in
 FindIDRFrames

---
 probe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..d5e2775 100644
--- a/probe.go
+++ b/probe.go
@@ -582,8 +582,8 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+uint64(lengthSize)+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
@@ -600,7 +600,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
-				nalOffset += lengthSize + length
+				nalOffset += uint64(lengthSize) + uint64(length)
 			}
 			dataOffset += uint64(sample.Size)
 		}
-- 
2.43.0


From d1edd69677cd4905c962fe28436e0beef6ef1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 04/18] fix: avoid division by zero in Samples.GetMaxBitrate

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index d5e2775..842c491 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From b6f50df4824a31b4d9fb8db1877b5d4301a0d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 05/18] fix: decode extracted boxes with the context of the box
 itself

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7c5cb41c9e81a8eace60f65b77d8cee59a6a1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/18] fix: do not reuse stale byte in ReadString when Read
 returns no data

---
 internal/util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From 51a70297ff8b3e10b5da36af758e21363dce75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 07/18] fix: report seek failure when restoring position of
 unsupported box version

---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..f9e1da5 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -316,7 +316,9 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 
 	if err := u.unmarshalStruct(v, boxDef.fields); err != nil {
 		if err == ErrUnsupportedBoxVersion {
-			r.Seek(sn, io.SeekStart)
+			if _, err := r.Seek(sn, io.SeekStart); err != nil {
+				return 0, err
+			}
 		}
 		return 0, err
 	}
-- 
2.43.0


From cc2e5c99e508e6b82fd8f7321bd11ef77f4e1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 08/18] fix: treat reader positioned beyond its end as having
 no data left

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index f9e1da5..b6e5dc0 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
-- 
2.43.0


From 5c9663497af91523917f7ba6699951e13ed8cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 09/18] fix: escape unprintable language codes in Stringify

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 4bc368e..1d6c3d8 100644
--- a/string.go
+++ b/string.go
@@ -225,7 +225,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 
 func (m *stringifier) stringifyUint(v reflect.Value, fi *fieldInstance, depth int) error {
 	if fi.is(fieldISO639_2) {
-		m.buf.WriteString(string([]byte{byte(v.Uint() + 0x60)}))
+		m.buf.WriteString(util.EscapeUnprintables(string([]byte{byte(v.Uint() + 0x60)})))
 	} else if fi.is(fieldUUID) {
 		fmt.Fprintf(m.buf, "%02x", v.Uint())
 	} else if fi.is(fieldString) {
-- 
2.43.0


From 94e1854656a02a61c74631eb5cd4f8a3d5510281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 10/18] fix: do not allocate buffers by untrusted box sizes in
 mp4tool dump and psshdump

---
 cmd/mp4tool/internal/dump/dump.go         | 2 +-
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..ccebc32 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -156,7 +156,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..8d3cfd5 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -54,8 +55,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -66,7 +67,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From 1d9305feab4f4b74c5e81bedd3e98e78fbb2b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 11/18] fix: report failures of creating, seeking, writing and
 closing files in mp4tool

---
 cmd/mp4tool/internal/divide/divide.go   | 49 ++++++++++++++++++-------
 cmd/mp4tool/internal/edit/edit.go       |  5 ++-
 cmd/mp4tool/internal/extract/extract.go |  4 +-
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..40f7149 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -154,7 +154,9 @@ func divide(inputFilePath, outputDir string) error {
 	}
 
 	for _, t := range tracks {
-		os.MkdirAll(t.outputDir, 0777)
+		if err := os.MkdirAll(t.outputDir, 0777); err != nil {
+			return err
+		}
 
 		if t.initFile, err = os.Create(path.Join(t.outputDir, initMP4FileName)); err != nil {
 			return err
@@ -297,7 +299,9 @@ func divide(inputFilePath, outputDir string) error {
 
 				// close last segment file and create next
 				t := tracks[currTrackID]
-				t.segmentFile.Close()
+				if err := t.segmentFile.Close(); err != nil {
+					return nil, err
+				}
 				if t.segmentFile, err = os.Create(path.Join(t.outputDir, segmentFileName(len(t.segments)))); err != nil {
 					return nil, err
 				}
@@ -348,6 +352,12 @@ func divide(inputFilePath, outputDir string) error {
 	}
 
 	for _, t := range tracks {
+		if err := t.initFile.Close(); err != nil {
+			return err
+		}
+		if err := t.segmentFile.Close(); err != nil {
+			return err
+		}
 		if err := outputMediaPlaylist(path.Join(t.outputDir, playlistFileName), t.segments); err != nil {
 			return err
 		}
@@ -381,9 +391,13 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		vt = t
 	}
 
-	file.WriteString("#EXTM3U\n")
+	if _, err := file.WriteString("#EXTM3U\n"); err != nil {
+		return err
+	}
 	if adir != "" {
-		file.WriteString("#EXT-X-MEDIA:TYPE=AUDIO,URI=\"" + adir + "/" + playlistFileName + "\",GROUP-ID=\"audio\",NAME=\"audio\",AUTOSELECT=YES,CHANNELS=\"2\"\n")
+		if _, err := file.WriteString("#EXT-X-MEDIA:TYPE=AUDIO,URI=\"" + adir + "/" + playlistFileName + "\",GROUP-ID=\"audio\",NAME=\"audio\",AUTOSELECT=YES,CHANNELS=\"2\"\n"); err != nil {
+			return err
+		}
 	}
 	if vdir != "" {
 		_, err = fmt.Fprintf(file, "#EXT-X-STREAM-INF:BANDWIDTH=%d,CODECS=\"avc1.64001f,mp4a.40.2\",RESOLUTION=%dx%d", // FIXME: hard coding
@@ -392,12 +406,15 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 			return err
 		}
 		if adir != "" {
-			file.WriteString(",AUDIO=\"audio\"")
+			if _, err := file.WriteString(",AUDIO=\"audio\""); err != nil {
+				return err
+			}
+		}
+		if _, err := file.WriteString("\n" + vdir + "/" + playlistFileName + "\n"); err != nil {
+			return err
 		}
-		file.WriteString("\n")
-		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return nil
+	return file.Close()
 }
 
 func outputMediaPlaylist(filePath string, segments []segment) error {
@@ -414,13 +431,15 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 
-	file.WriteString("#EXTM3U\n")
-	file.WriteString("#EXT-X-VERSION:7\n")
+	if _, err := file.WriteString("#EXTM3U\n#EXT-X-VERSION:7\n"); err != nil {
+		return err
+	}
 	if _, err := fmt.Fprintf(file, "#EXT-X-TARGETDURATION:%d\n", int(math.Ceil(maxDur))); err != nil {
 		return err
 	}
-	file.WriteString("#EXT-X-PLAYLIST-TYPE:VOD\n")
-	file.WriteString("#EXT-X-MAP:URI=\"" + initMP4FileName + "\"\n")
+	if _, err := file.WriteString("#EXT-X-PLAYLIST-TYPE:VOD\n#EXT-X-MAP:URI=\"" + initMP4FileName + "\"\n"); err != nil {
+		return err
+	}
 	for i := range segments {
 		if _, err := fmt.Fprintf(file, "#EXTINF:%f,\n", segments[i].duration); err != nil {
 			return err
@@ -429,6 +448,8 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 			return err
 		}
 	}
-	file.WriteString("#EXT-X-ENDLIST\n")
-	return nil
+	if _, err := file.WriteString("#EXT-X-ENDLIST\n"); err != nil {
+		return err
+	}
+	return file.Close()
 }
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..c1261a7 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -123,5 +123,8 @@ func editFile(inputPath, outputPath string) error {
 		_, err = w.EndBox()
 		return nil, err
 	})
-	return err
+	if err != nil {
+		return err
+	}
+	return outputFile.Close()
 }
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..8536cae 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -56,7 +56,9 @@ func Main(args []string) int {
 func extract(r io.ReadSeeker, boxType mp4.BoxType) error {
 	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if h.BoxInfo.Type == boxType {
-			h.BoxInfo.SeekToStart(r)
+			if _, err := h.BoxInfo.SeekToStart(r); err != nil {
+				return nil, err
+			}
 			if _, err := io.CopyN(os.Stdout, r, int64(h.BoxInfo.Size)); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 1b8036818c452d3fe13f94be969b55126b516969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 12/18] fix: return errors instead of panicking on unexpected
 box structure in mp4tool divide

---
 cmd/mp4tool/internal/divide/divide.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 40f7149..f34249c 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -218,7 +219,10 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, ok := val.(childInfo)
+					if !ok {
+						return nil, errors.New("unexpected box under moov box")
+					}
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
@@ -285,6 +289,8 @@ func divide(inputFilePath, outputDir string) error {
 				bs, err = mp4.ExtractBoxWithPayload(inputFile, &h.BoxInfo, mp4.BoxPath{mp4.BoxTypeTraf(), mp4.BoxTypeTrun()})
 				if err != nil {
 					return nil, err
+				} else if len(bs) == 0 {
+					return nil, errors.New("traf box must have trun box")
 				}
 				trun := bs[0].Payload.(*mp4.Trun)
 
@@ -315,6 +321,9 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
+				if len(t.segments) == 0 {
+					return nil, errors.New("mdat box appears before moof box")
+				}
 				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
 				if bandwidth > t.bandwidth {
 					t.bandwidth = bandwidth
-- 
2.43.0


From df32e10819570f94ed364f16afbf3aad1e7b68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 13/18] fix: decode sgpd roll entries that carry a description
 length

The tag of RollDistancesL declared 16-bit elements while each entry is a
48-bit structure, so Unmarshal failed for every non-empty list.
---
 box_types_iso14496_12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..748e29f 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1554,7 +1554,7 @@ type Sgpd struct {
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
 	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From 5bfbb126322e144c3a4a0fb172dc612dc729bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 14/18] fix: decode counted hdlr names of 255 bytes

The length byte plus one was computed in eight bits and wrapped to zero.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 748e29f..256ec2a 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -648,8 +648,8 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 		return 0, false, err
 	}
 
-	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	plen := uint64(buf[0])
+	if hdlr.PreDefined != 0 && size >= 2 && size == plen+1 {
 		// Pascal-style String
 		hdlr.Name = string(buf[1 : plen+1])
 	} else {
-- 
2.43.0


From fe3d4eded24926dcfa0b731c710f9bed364fb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 15/18] fix: Probe reports the AVC configuration of encrypted
 video tracks

Probe extracted encv/avcC but never used the encv sample entry, so Track.AVC
stayed nil for encrypted tracks, unlike MP4A for enca.
---
 probe.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probe.go b/probe.go
index 842c491..902e0e4 100644
--- a/probe.go
+++ b/probe.go
@@ -233,6 +233,7 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 		case BoxTypeEncv():
 			track.Codec = CodecAVC1
 			track.Encrypted = true
+			avc1 = bip.Payload.(*VisualSampleEntry)
 		case BoxTypeMp4a():
 			track.Codec = CodecMP4A
 			audioSampleEntry = bip.Payload.(*AudioSampleEntry)
-- 
2.43.0


From e2ad36c850bb60141695b949c297b63bc8b09d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 16/18] fix: Probe reports constant sample sizes

A stsz box with a non-zero sample_size has no entry table; Probe left the size
of every sample 0 for such tracks.
---
 probe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probe.go b/probe.go
index 902e0e4..0bd7044 100644
--- a/probe.go
+++ b/probe.go
@@ -360,6 +360,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 	}
 
 	if stsz != nil {
+		if stsz.SampleSize != 0 {
+			for _, sample := range track.Samples {
+				sample.Size = stsz.SampleSize
+			}
+		}
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From 744b40fdeb1a64fb36bddbe9987d02810fcd629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:47 +0000
Subject: [PATCH 17/18] fix: Stringify printed 0 for the Version field of boxes
 without FullBox

The field Version of a structure that is not FullBox (DOps, Item) is an
ordinary field, but GetVersion of the box was printed in its place.
---
 box_types_metadata.go | 2 +-
 box_types_opus.go     | 2 +-
 string.go             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/box_types_metadata.go b/box_types_metadata.go
index 7baba22..bef2f0c 100644
--- a/box_types_metadata.go
+++ b/box_types_metadata.go
@@ -175,7 +175,7 @@ func (sd *StringData) StringifyField(name string, indent string, depth int, ctx
 // https://developer.apple.com/documentation/quicktime-file-format/metadata_item_list_atom/item_list
 type Item struct {
 	AnyTypeBox
-	Version  uint8   `mp4:"0,size=8"`
+	Version  uint8   `mp4:"0,size=8,dec"`
 	Flags    [3]byte `mp4:"1,size=8"`
 	ItemName []byte  `mp4:"2,size=8,len=4"`
 	Data     Data    `mp4:"3"`
diff --git a/box_types_opus.go b/box_types_opus.go
index 5d02d36..e04c98a 100644
--- a/box_types_opus.go
+++ b/box_types_opus.go
@@ -22,7 +22,7 @@ func init() {
 
 type DOps struct {
 	Box
-	Version              uint8   `mp4:"0,size=8"`
+	Version              uint8   `mp4:"0,size=8,dec"`
 	OutputChannelCount   uint8   `mp4:"1,size=8"`
 	PreSkip              uint16  `mp4:"2,size=16"`
 	InputSampleRate      uint32  `mp4:"3,size=32"`
diff --git a/string.go b/string.go
index 1d6c3d8..cbf0628 100644
--- a/string.go
+++ b/string.go
@@ -110,7 +110,7 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
+		if f.name == "Version" && v.Type() == reflect.TypeOf(FullBox{}) {
 			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
-- 
2.43.0


From cf5a303fb2d560a62161217cb175eee1cf1c3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:36 +0000
Subject: [PATCH 18/18] fix: mp4tool edit truncated a base_media_decode_time
 beyond 32 bits in a version 0 tfdt

---
 cmd/mp4tool/internal/edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c1261a7..af318e8 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -105,6 +105,9 @@ func editFile(inputPath, outputPath string) error {
 			tfdt := box.(*mp4.Tfdt)
 			if config.values.BaseMediaDecodeTime != UNoValue {
 				if tfdt.GetVersion() == 0 {
+					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
+						return nil, fmt.Errorf("base_media_decode_time of version 0 must not exceed %d: %d", uint32(math.MaxUint32), config.values.BaseMediaDecodeTime)
+					}
 					tfdt.BaseMediaDecodeTimeV0 = uint32(config.values.BaseMediaDecodeTime)
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
-- 
2.43.0

