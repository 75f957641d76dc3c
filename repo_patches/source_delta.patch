From f0d33ccfe03f56dc94c06fed6069a7f80001aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 01/27] fix: read coder id and properties in full across buffer
 boundaries

bufio.Reader.Read returns what is buffered, so a coder id or property blob
straddling a buffer boundary of a valid header was rejected as incomplete.
---
 types.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index dfeb2b2..ba24824 100644
--- a/types.go
+++ b/types.go
@@ -47,7 +47,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -269,12 +268,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: Read error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -298,12 +293,8 @@ func readCoder(r util.Reader) (*coder, error) {
 		}
 
 		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		if _, err := io.ReadFull(r, c.properties); err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
 	}
 
-- 
2.43.0


From 14f87189f11cf54d1721e54abdcbd59682d563f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 02/27] fix: map files to folders when there is no substreams
 information

Without SubStreamsInfo every folder holds exactly one file, but all files
were attributed to the first folder.
---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index bb6ddca..2332a9d 100644
--- a/struct.go
+++ b/struct.go
@@ -230,6 +230,9 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
 		}
+	} else {
+		// Without any substreams information each folder holds exactly one file
+		folder = file
 	}
 
 	if streams == 1 {
-- 
2.43.0


From eddd66de47eb71af323e623f69c629175ad34c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 03/27] fix: reject headers whose streams are inconsistent

Bind pairs, packed streams, substream sizes and file counts read from the
header were used as indices without being checked against the structures
they refer to, so a malformed header caused an index out of range or nil
pointer panic when opening the archive or one of its files.
---
 struct.go | 29 +++++++++++++++++++++++++++++
 types.go  | 37 ++++++++++++++++++++++++++++++++++---
 2 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 2332a9d..f2df286 100644
--- a/struct.go
+++ b/struct.go
@@ -210,6 +210,35 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// files returns the number of files stored across all of the folders.
+func (si *streamsInfo) files() uint64 {
+	if si == nil || si.unpackInfo == nil {
+		return 0
+	}
+
+	if si.subStreamsInfo == nil {
+		return uint64(len(si.unpackInfo.folder))
+	}
+
+	files := uint64(0)
+	for _, v := range si.subStreamsInfo.streams {
+		files += v
+	}
+
+	return files
+}
+
+// hasPackedStreams returns whether there is a size for every packed stream
+// used by the folders.
+func (si *streamsInfo) hasPackedStreams() bool {
+	streams := uint64(0)
+	for _, f := range si.unpackInfo.folder {
+		streams += f.packedStreams
+	}
+
+	return si.packInfo != nil && streams <= uint64(len(si.packInfo.size))
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
 		folder  int
diff --git a/types.go b/types.go
index ba24824..0521048 100644
--- a/types.go
+++ b/types.go
@@ -53,6 +53,10 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errMissingPackInfo        = errors.New("sevenzip: missing pack info")
+	errMissingSubStreamSizes  = errors.New("sevenzip: missing substream sizes")
+	errMissingStreams         = errors.New("sevenzip: more files than streams")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -351,6 +355,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			return nil, err
 		}
 
+		if in >= f.in || out >= f.out {
+			return nil, errInvalidBindPair
+		}
+
 		f.bindPair = append(f.bindPair, &bindPair{
 			in:  in,
 			out: out,
@@ -366,12 +374,20 @@ func readFolder(r util.Reader) (*folder, error) {
 				f.packed = append(f.packed, i)
 			}
 		}
+
+		if len(f.packed) != 1 {
+			return nil, errInvalidBindPair
+		}
 	} else {
 		f.packed = make([]uint64, f.packedStreams)
 		for i := range f.packedStreams {
 			if f.packed[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.packed[i] >= f.in {
+				return nil, errInvalidPackedStream
+			}
 		}
 	}
 
@@ -486,7 +502,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	s.streams = make([]uint64, len(folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
-			if s.streams[i], err = readUint64(r); err != nil {
+			if s.streams[i], err = readUint64Bounded(r, false); err != nil {
 				return nil, err
 			}
 		}
@@ -539,6 +555,13 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 		if err != nil {
 			return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
 		}
+	} else {
+		// The sizes can only be omitted if they follow from the folder sizes
+		for _, v := range s.streams {
+			if v > 1 {
+				return nil, errMissingSubStreamSizes
+			}
+		}
 	}
 
 	if id == idCRC {
@@ -609,6 +632,10 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if s.unpackInfo != nil && !s.hasPackedStreams() {
+		return nil, errMissingPackInfo
+	}
+
 	return s, nil
 }
 
@@ -930,17 +957,21 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
-	j := 0
+	j, files := 0, h.streamsInfo.files()
 
 	for i := range h.filesInfo.file {
 		if h.filesInfo.file[i].isEmptyStream {
 			continue
 		}
 
+		if uint64(j) >= files {
+			return nil, errMissingStreams
+		}
+
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From 68643c294cffc6f34ace5b6594050da211e37a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 04/27] fix: copy the AES salt so the IV isn't overwritten by
 the password

---
 internal/aes7z/key.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..5c39c6d 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,9 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// The salt is part of the coder properties so it needs copying as otherwise
+	// appending to it can overwrite the properties that follow it
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From e42099a8fd29d6fbe9b2c8d34fdd441e17d179ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 05/27] fix: handle a delta distance of 256

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From ae70810cb524670b8d9321b59d0fd16c14061228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 06/27] fix: return io.EOF from the delta filter

---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9d07ce1 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err //nolint:wrapcheck
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From e50867bd2ad1d100c309ddcbf9c96652e57d47ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 07/27] fix: report truncated BCJ2 call and jump streams

---
 internal/bcj2/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..0f7acb3 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -212,11 +212,11 @@ func (rc *readCloser) read() error {
 
 		var dest uint32
 		if err = binary.Read(r, binary.BigEndian, &dest); err != nil {
-			if !errors.Is(err, io.EOF) {
-				err = fmt.Errorf("bcj2: error reading uint32: %w", err)
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			return err
+			return fmt.Errorf("bcj2: error reading uint32: %w", err)
 		}
 
 		dest -= rc.written + 4
-- 
2.43.0


From 53a60592af5baf032eac3fa014f88a8aac6e4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 08/27] fix: keep track of ARM addresses beyond 4 GiB

---
 internal/bra/arm.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..ab1f7ee 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -18,10 +18,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 		return 0
 	}
 
-	if c.ip == 0 {
-		c.ip = armAlignment
-	}
-
 	var i int
 
 	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
@@ -48,5 +44,5 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 
 // NewARMReader returns a new ARM io.ReadCloser.
 func NewARMReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm))
+	return newReader(readers, &arm{ip: armAlignment})
 }
-- 
2.43.0


From d903870fe4db01703a71de886951a2a6dc6af1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 09/27] fix: don't drop a byte returned along with an error

---
 internal/util/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..1d09964 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -46,15 +46,16 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
-		return 0, err //nolint:wrapcheck
+	if n == 1 {
+		// The reader is allowed to return the last byte along with io.EOF
+		return b[0], nil
 	}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
+	if err != nil {
+		return 0, err //nolint:wrapcheck
 	}
 
-	return b[0], nil
+	return 0, io.ErrNoProgress
 }
 
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
-- 
2.43.0


From 5da10677bf831cfb9632e2cd3d415160ab7c82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 10/27] fix: close a reader that isn't added to the pool

---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From f1ca848bdf1d17105f099d0ed083848fb9f73f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 11/27] fix: keep the encryption hint when setting the password
 fails

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index f2df286..4622738 100644
--- a/struct.go
+++ b/struct.go
@@ -338,7 +338,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
 		if err != nil {
-			return nil, 0, hasEncryption, err
+			return nil, 0, hasEncryption || isEncrypted, err
 		}
 
 		if isEncrypted {
-- 
2.43.0


From 4d36a1486f65a7f13aa1ab7e7ef5255c38717d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 12/27] fix: convert timestamps outside of the years 1678 to
 2262

---
 types.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 0521048..9fda2e8 100644
--- a/types.go
+++ b/types.go
@@ -639,6 +639,19 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	return s, nil
 }
 
+// filetimeToTime converts without going via a count of nanoseconds since the
+// epoch which is only able to represent the years 1678 to 2262.
+func filetimeToTime(ft windows.Filetime) time.Time {
+	const (
+		perSecond = 10000000    // 100-nanosecond intervals
+		epoch     = 11644473600 // Seconds between January 1, 1601 and January 1, 1970
+	)
+
+	t := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+
+	return time.Unix(int64(t/perSecond)-epoch, int64(t%perSecond)*100).UTC() //nolint:gosec
+}
+
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -677,7 +690,7 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			times[i] = filetimeToTime(ft)
 		}
 	}
 
-- 
2.43.0


From 817564c70a4727c4c6c722c94b1f946a5d506ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 13/27] fix: reject substreams that are larger than their
 folder

---
 types.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 9fda2e8..71e956d 100644
--- a/types.go
+++ b/types.go
@@ -57,6 +57,7 @@ var (
 	errMissingPackInfo        = errors.New("sevenzip: missing pack info")
 	errMissingSubStreamSizes  = errors.New("sevenzip: missing substream sizes")
 	errMissingStreams         = errors.New("sevenzip: more files than streams")
+	errSubStreamTooLarge      = errors.New("sevenzip: substreams larger than folder")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -536,18 +537,22 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 				continue
 			}
 
-			total := uint64(0)
+			total, unpackSize := uint64(0), folder[i].unpackSize()
 
 			for j := uint64(1); j < s.streams[i]; j++ {
 				if s.size[k], err = readUint64(r); err != nil {
 					return nil, err
 				}
 
+				if s.size[k] > unpackSize-total {
+					return nil, errSubStreamTooLarge
+				}
+
 				total += s.size[k]
 				k++
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
+			s.size[k] = unpackSize - total
 			k++
 		}
 
-- 
2.43.0


From df64c8306167a5c7508b006a5d691d96bb9ebefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 14/27] fix: use the size of the unbound stream for the only
 file in a folder

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 4622738..10830b3 100644
--- a/struct.go
+++ b/struct.go
@@ -269,7 +269,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].unpackSize(), crc
 	}
 
 	return folder, si.subStreamsInfo.size[file], crc
-- 
2.43.0


From b7d760511a36f4a57702bbcd90bb482bfd4c48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 15/27] fix: find the signature in volumes smaller than the
 search limit

---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..50ed5f8 100644
--- a/reader.go
+++ b/reader.go
@@ -369,7 +369,8 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// Reading past the end of multiple volumes isn't io.EOF
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
-- 
2.43.0


From 379eb578c172fba3b4a4da7fc943f7ee67871a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 16/27] fix: don't list names that aren't valid in a file
 system

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 50ed5f8..0a99f71 100644
--- a/reader.go
+++ b/reader.go
@@ -664,6 +664,11 @@ func toValidName(name string) string {
 		p = p[len("../"):]
 	}
 
+	// Neither of these name anything within the archive
+	if p == "." || p == ".." {
+		return ""
+	}
+
 	return p
 }
 
-- 
2.43.0


From 84ce2a8a9b2d5ff488edcfaf6a7f5d5940d017de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 17/27] fix: support the largest LZMA2 dictionary size

---
 internal/lzma2/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index 59cca7b..df6fbc6 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -63,7 +63,8 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	}
 
 	config := lzma.Reader2Config{
-		DictCap: (2 | (int(p[0]) & 1)) << (p[0]/2 + 11), // This gem came from Lzma2Dec.c
+		// This gem came from Lzma2Dec.c
+		DictCap: int(min((2|(int64(p[0])&1))<<(p[0]/2+11), lzma.MaxDictCap)),
 	}
 
 	if err := config.Verify(); err != nil {
-- 
2.43.0


From de2a0d15fb03cb79fa91d630acce3eaae0a0c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 18/27] fix: opening an empty file with the fs.FS interface

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0a99f71..521d46e 100644
--- a/reader.go
+++ b/reader.go
@@ -149,7 +149,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From 28c8387d57cef51086ce1baf7ba49ca3e87c6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 19/27] fix: return an error when reading from a closed file

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 521d46e..9517d4a 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, iofs.ErrClosed
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From cded0f60abe82fe98e6bb85cd5306b7997cb6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 20/27] fix: don't reuse a reader after it has failed

---
 reader.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/reader.go b/reader.go
index 9517d4a..7fb8979 100644
--- a/reader.go
+++ b/reader.go
@@ -78,9 +78,10 @@ type File struct {
 }
 
 type fileReader struct {
-	rc util.SizeReadSeekCloser
-	f  *File
-	n  int64
+	rc     util.SizeReadSeekCloser
+	f      *File
+	n      int64
+	failed bool
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -108,6 +109,8 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	fr.n -= int64(n)
 
 	if err != nil && !errors.Is(err, io.EOF) {
+		fr.failed = true
+
 		e := &ReadError{
 			Err: err,
 		}
@@ -127,24 +130,26 @@ func (fr *fileReader) Close() error {
 		return nil
 	}
 
-	offset, err := fr.rc.Seek(0, io.SeekCurrent)
+	// Regardless of any error, the reader is only ever closed or pooled once
+	rc := fr.rc
+	fr.rc = nil
+
+	offset, err := rc.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
+		return fmt.Errorf("sevenzip: error seeking current position: %w", errors.Join(err, rc.Close()))
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
-		if err := fr.rc.Close(); err != nil {
+	if offset == rc.Size() || fr.failed { // EOF reached, or not usable for any other file
+		if err := rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
 	} else {
 		f := fr.f
-		if _, err := f.zip.pool[f.folder].Put(offset, fr.rc); err != nil {
+		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
 			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
 		}
 	}
 
-	fr.rc = nil
-
 	return nil
 }
 
@@ -181,6 +186,8 @@ func (f *File) Open() (io.ReadCloser, error) {
 			e.Encrypted = fr.hasEncryption
 		}
 
+		_ = rc.Close()
+
 		return nil, e
 	}
 
-- 
2.43.0


From 892c9955d25d4aa570dc3fe5b3a4032b22d0f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 21/27] fix: repeated empty stream record replaces the earlier
 one

---
 types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 71e956d..6fd7214 100644
--- a/types.go
+++ b/types.go
@@ -840,8 +840,11 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			// Any earlier record is replaced
+			emptyStreams = 0
+
 			for i := range f.file {
-				f.file[i].isEmptyStream = empty[i]
+				f.file[i].isEmptyStream, f.file[i].isEmptyFile = empty[i], false
 
 				if empty[i] {
 					emptyStreams++
-- 
2.43.0


From a3d5520115abc34090fc7d6cbdc83e1622dc8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 22/27] fix: base name of files stored with backslashes

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 10830b3..1acb310 100644
--- a/struct.go
+++ b/struct.go
@@ -407,7 +407,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From 9688db24a89ff96af17b51c3b6b97cbd8e404237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 23/27] fix: check the length of the LZMA properties

---
 internal/lzma/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..1e0e67d 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -17,8 +17,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("lzma: already closed")
-	errNeedOneReader = errors.New("lzma: need exactly one reader")
+	errAlreadyClosed          = errors.New("lzma: already closed")
+	errNeedOneReader          = errors.New("lzma: need exactly one reader")
+	errInsufficientProperties = errors.New("lzma: not enough properties")
 )
 
 func (rc *readCloser) Close() error {
@@ -54,6 +55,10 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errNeedOneReader
 	}
 
+	if len(p) != 5 {
+		return nil, errInsufficientProperties
+	}
+
 	h := bytes.NewBuffer(p)
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-- 
2.43.0


From 4888e9756aa28691c8131dc579b1ddb647f627dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 24/27] fix: don't let an empty volume hide the volumes that
 follow it

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 7fb8979..fa2f187 100644
--- a/reader.go
+++ b/reader.go
@@ -250,7 +250,10 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 				return nil, 0, nil, fmt.Errorf("sevenzip: error retrieving file info: %w", errors.Join(errs...))
 			}
 
-			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
+			// An empty volume would otherwise hide the volumes that follow it
+			if size := info.Size(); size > 0 {
+				sr = append(sr, io.NewSectionReader(f, 0, size))
+			}
 		}
 
 		mr := readerutil.NewMultiReaderAt(sr...)
-- 
2.43.0


From c2936c6780c049ab11067d7ee8c6fe747caa9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 25/27] fix: don't reuse a Brotli decoder that has buffered
 input

---
 internal/brotli/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..cd64cf8 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -46,11 +46,18 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// Resetting the decoder doesn't discard the input it has buffered, only
+	// reuse it if it has reached the end
+	_, end := rc.r.Read(make([]byte, 1))
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("brotli: error closing: %w", err)
 	}
 
-	brotliReaderPool.Put(rc.r)
+	if errors.Is(end, io.EOF) {
+		brotliReaderPool.Put(rc.r)
+	}
+
 	rc.c, rc.r = nil, nil
 
 	return nil
-- 
2.43.0


From 85f68a799c3613b9c218938c08dffda2906eae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 26/27] fix: refuse an archive with only part of its header

---
 reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index fa2f187..e428466 100644
--- a/reader.go
+++ b/reader.go
@@ -464,7 +464,8 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 	h.Reset()
 
 	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
-	br := bufio.NewReader(io.NewSectionReader(tra, z.end, int64(start.Size))) //nolint:gosec
+	hr := io.NewSectionReader(tra, z.end, int64(start.Size)) //nolint:gosec
+	br := bufio.NewReader(hr)
 
 	var (
 		id          byte
@@ -495,6 +496,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		return errTooMuch
 	}
 
+	// The checksum has to cover all of the header
+	if n, err := hr.Seek(0, io.SeekCurrent); err != nil || uint64(n) != start.Size { //nolint:gosec
+		return fmt.Errorf("sevenzip: error reading header: %w", errors.Join(err, io.ErrUnexpectedEOF))
+	}
+
 	// CRC should match the one from the start header
 	if !util.CRC32Equal(h.Sum(nil), start.CRC) {
 		return errChecksum
-- 
2.43.0


From 93544fa6115655038e343b6e46afb07c654d3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 27/27] fix: stop the Zstandard decoder before closing its
 source

---
 internal/zstd/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..c377105 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,11 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// The decoder reads ahead in the background, stop that before closing its source
+	if err := rc.r.Reset(nil); err != nil {
+		return fmt.Errorf("zstd: error resetting: %w", err)
+	}
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0

