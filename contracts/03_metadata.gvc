// C03: file properties.

// time.Time is an opaque value; instants are built by time.Unix and UTC
uf unixT(sec int, nsec int) time
uf utcT(t time) time
extern time.Unix(sec, nsec) (t)
  ensures t == unixT(int(sec), int(nsec))
extern time.Time.UTC(t) (u)
  ensures u == utcT(t)

// FILETIME: 100 ns units since 1601-01-01, UTC
purebv ftime(lo u32, hi u32) time = utcT(unixT(int(((u64(hi) << 32) | u64(lo)) / 10000000) - 11644473600, int(((u64(hi) << 32) | u64(lo)) % 10000000) * 100))

func sevenzip.filetimeToTime(ft) (t)
  mode bv
  props C03, C04
  ensures [value] t == ftime(ft.LowDateTime, ft.HighDateTime)

pure tmAt(d bytes, p int, n int, k int) time = obAt(d, p, k) ? ftime(le32(d, obNext(d, p, n) + 1 + 8 * ocnt(d, p, k)), le32(d, obNext(d, p, n) + 5 + 8 * ocnt(d, p, k))) : zerotime()
rec tmNext(d bytes, p int, n int) int = obNext(d, p, n) + 1 + 8 * ocnt(d, p, n)

func sevenzip.readTimes(r, count) (times, err)
  props C03, C04
  requires stream(r)
  modifies r.pos
  use ocnt_mono(r.data, old(r.pos), 0, int(count))
  loop 1
    vars defined []bool; times []time.Time
    invariant [len] len(times) == int(count) && $i <= int(count) && len(defined) == int(count)
    invariant [bits] forall k :: {defined[k]} 0 <= k && k < int(count) ==> defined[k] == obAt(r.data, old(r.pos), k)
    invariant [value] forall k :: {times[k]} 0 <= k && k < $i ==> times[k] == tmAt(r.data, old(r.pos), int(count), k)
    invariant [zero] forall k :: {times[k]} $i <= k && k < int(count) ==> times[k] == zerotime()
    invariant [pos] r.pos == obNext(r.data, old(r.pos), int(count)) + 1 + 8 * ocnt(r.data, old(r.pos), $i) && stream(r) && old(r.pos) <= r.pos
    use ocnt_mono(r.data, old(r.pos), $i + 1, int(count))
  ensures [len] err == nil ==> len(times) == int(count) && times != nil
  ensures [value] err == nil ==> forall k :: {times[k]} 0 <= k && k < int(count) ==> times[k] == tmAt(r.data, old(r.pos), int(count), k)
  ensures [pos] err == nil ==> r.pos == tmNext(r.data, old(r.pos), int(count)) && r.data[obNext(r.data, old(r.pos), int(count))] == 0
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && old(r.pos) < r.end && tmNext(r.data, old(r.pos), int(count)) <= r.end && r.data[obNext(r.data, old(r.pos), int(count))] == 0
  ensures [stream] stream(r) && old(r.pos) <= r.pos

pure atAt(d bytes, p int, n int, k int) u32 = obAt(d, p, k) ? le32(d, obNext(d, p, n) + 1 + 4 * ocnt(d, p, k)) : u32(0)
rec atNext(d bytes, p int, n int) int = obNext(d, p, n) + 1 + 4 * ocnt(d, p, n)

func sevenzip.readAttributes(r, count) (attributes, err)
  props C03, C04
  requires stream(r)
  modifies r.pos
  use ocnt_mono(r.data, old(r.pos), 0, int(count))
  loop 1
    vars defined []bool; attributes []uint32
    invariant [len] len(attributes) == int(count) && $i <= int(count) && len(defined) == int(count)
    invariant [bits] forall k :: {defined[k]} 0 <= k && k < int(count) ==> defined[k] == obAt(r.data, old(r.pos), k)
    invariant [value] forall k :: {attributes[k]} 0 <= k && k < $i ==> attributes[k] == atAt(r.data, old(r.pos), int(count), k)
    invariant [zero] forall k :: {attributes[k]} $i <= k && k < int(count) ==> attributes[k] == 0
    invariant [pos] r.pos == obNext(r.data, old(r.pos), int(count)) + 1 + 4 * ocnt(r.data, old(r.pos), $i) && stream(r) && old(r.pos) <= r.pos
    use ocnt_mono(r.data, old(r.pos), $i + 1, int(count))
  ensures [len] err == nil ==> len(attributes) == int(count) && attributes != nil
  ensures [value] err == nil ==> forall k :: {attributes[k]} 0 <= k && k < int(count) ==> attributes[k] == atAt(r.data, old(r.pos), int(count), k)
  ensures [pos] err == nil ==> r.pos == atNext(r.data, old(r.pos), int(count)) && r.data[obNext(r.data, old(r.pos), int(count))] == 0
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && old(r.pos) < r.end && atNext(r.data, old(r.pos), int(count)) <= r.end && r.data[obNext(r.data, old(r.pos), int(count))] == 0
  ensures [stream] stream(r) && old(r.pos) <= r.pos

// names: NUL-terminated UTF-16LE strings; the conversion and tokenising
// library chain is assumed to deliver nmCount tokens nmTok(k) of the bytes.
sort scanner
uf nmTok(d bytes, p int, n int, k int) str
uf nmCount(d bytes, p int, n int) int
ghost src ref
ghost start int
ghost lim int
ghost tok int
ghost sfailed bool

extern io.LimitReader(r, n) (l)
  ensures l != nil && fresh(l) && l.src == r && l.start == r.pos && l.lim == max(0, int(n))
extern golang.org/x/text/encoding/unicode.UTF16(e, b) (enc)
  requires [littleEndian] e
  requires [noBOM] int(b) == 0
  ensures enc != nil
extern golang.org/x/text/encoding.Encoding.NewDecoder(e) (dec)
  ensures dec != nil
extern golang.org/x/text/transform.NewReader(r, t) (tr)
  ensures tr != nil && fresh(tr) && tr.src == r.src && tr.start == r.start && tr.lim == r.lim
extern bufio.NewScanner(r) (s)
  ensures s != nil && fresh(s) && s.src == r.src && s.start == r.start && s.lim == r.lim && s.tok == 0
extern bufio.Scanner.Split(s, f)
  requires isfunc(f, "sevenzip.splitNull")
extern bufio.Scanner.Scan(s) (ok)
  modifies s.tok, s.src.pos, s.sfailed
  ensures ok ==> 0 <= old(s.tok) && old(s.tok) < nmCount(s.src.data, s.start, s.lim) && s.tok == old(s.tok) + 1 && old(s.tok) < 0x100000000000000
  ensures !ok ==> s.tok == old(s.tok)
  ensures s.src.pos >= old(s.src.pos) && s.src.pos <= s.src.end && s.src.pos <= max(old(s.src.pos), s.start + s.lim)
  ensures !ok && !s.sfailed ==> s.tok == nmCount(s.src.data, s.start, s.lim) && s.src.pos == min(s.src.end, s.start + s.lim)
extern bufio.Scanner.Text(s) (t)
  ensures t == nmTok(s.src.data, s.start, s.lim, s.tok - 1)
extern bufio.Scanner.Err(s) (err)
  ensures (err == nil) == !s.sfailed

func sevenzip.readNames(r, count, length) (names, err)
  props C03, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars names []string; i uint64
    invariant [pos] old(r.pos) < r.pos && stream(r)
    invariant [count] len(names) == int(i) && len(names) == scanner.tok
    invariant [value] forall k :: {names[k]} 0 <= k && k < len(names) ==> names[k] == nmTok(r.data, old(r.pos) + 1, scanner.lim, k)
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [len] err == nil ==> len(names) == int(count)
  ensures [value] err == nil && length > 0 && int(length) < 0x100000000000000 ==> (forall k :: {names[k]} 0 <= k && k < len(names) ==> names[k] == nmTok(r.data, old(r.pos) + 1, int(length) - 1, k))
  ensures [pos] err == nil && length > 0 && int(length) < 0x100000000000000 ==> r.pos == min(r.end, old(r.pos) + int(length)) && r.data[old(r.pos)] == 0

extern bytes.IndexRune(s, c) (i)
  requires c == 0
  ensures i == -1 || 0 <= i && i < len(s) && s[i] == 0 && (forall k :: {s[k]} 0 <= k && k < i ==> s[k] != 0)
  ensures i == -1 ==> (forall k :: {s[k]} 0 <= k && k < len(s) ==> s[k] != 0)

// one token: the bytes before the first NUL; the last token may lack it
func sevenzip.splitNull(data, atEOF) (advance, token, err)
  props C03, C04
  ensures [err] err == nil
  ensures [bounds] 0 <= advance && advance <= len(data) && len(token) <= advance
  ensures [more] advance == 0 ==> token == nil && (atEOF ==> len(data) == 0) && (forall k :: {data[k]} 0 <= k && k < len(data) ==> data[k] != 0)
  ensures [token] advance > 0 ==> token != nil && arr(token) == arr(data) && off(token) == off(data) && (forall k :: {data[k]} 0 <= k && k < len(token) ==> data[k] != 0)
  ensures [nul] advance > 0 ==> len(token) == advance && advance == len(data) && atEOF || len(token) == advance - 1 && data[advance - 1] == 0

// number of empty streams among the first k files
rec ecnt(b [int]bool, o int, k int) int = k <= 0 ? 0 : ecnt(b, o, k - 1) + (b[o + k - 1] ? 1 : 0)
lemma ecnt_mono(b [int]bool, o int, j int, k int)
  requires 0 <= j && j <= k
  ensures 0 <= ecnt(b, o, j) && ecnt(b, o, j) <= ecnt(b, o, k) && ecnt(b, o, k) <= ecnt(b, o, j) + (k - j)
  induct k
lemma ecnt_eq(a [int]bool, oa int, b [int]bool, ob int, k int)
  requires 0 <= k && (forall i :: {a[oa + i]} 0 <= i && i < k ==> a[oa + i] == b[ob + i])
  ensures ecnt(a, oa, k) == ecnt(b, ob, k)
  induct k
lemma ecnt_seg(b [int]bool, o int, k int, n int)
  requires 0 <= k && k < n
  ensures 0 <= ecnt(b, o, k) && ecnt(b, o, k) + (b[o + k] ? 1 : 0) <= ecnt(b, o, n)
  use ecnt_mono(b, o, 0, k)
  use ecnt_mono(b, o, k + 1, n)
lemma ecnt_none(b [int]bool, o int, k int)
  requires 0 <= k && (forall i :: {b[o + i]} 0 <= i && i < k ==> !b[o + i])
  ensures ecnt(b, o, k) == 0
  induct k

// a property record at p: id, length, contents
pure rid(d bytes, p int) u8 = d[p]
pure rp(d bytes, p int) int = vnext(d, p + 1)

func sevenzip.readFilesInfo(r) (f, err)
  props C03, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars f *filesInfo; files uint64; emptyStreams uint64
    use ecnt_none(row(f.file, "isEmptyStream"), off(f.file), int(files))
    invariant [pos] stream(r) && old(r.pos) < r.pos
    invariant [len] len(f.file) == int(files) && 0 < int(files) && int(files) <= 0xffffffff && files == vint(r.data, old(r.pos))
    invariant [empty] int(emptyStreams) == ecnt(row(f.file, "isEmptyStream"), off(f.file), int(files))
    invariant [sub] forall k :: {f.file[k].isEmptyFile} 0 <= k && k < int(files) && f.file[k].isEmptyFile ==> f.file[k].isEmptyStream
    step [emptystream] rid(r.data, prev(r.pos)) == 0x0e ==> forall k :: {f.file[k].isEmptyStream} 0 <= k && k < int(files) ==> f.file[k].isEmptyStream == bitAt(r.data, rp(r.data, prev(r.pos)), k) && !f.file[k].isEmptyFile
    step [emptyfile] rid(r.data, prev(r.pos)) == 0x0f ==> forall k :: {f.file[k].isEmptyFile} 0 <= k && k < int(files) && f.file[k].isEmptyStream ==> f.file[k].isEmptyFile == bitAt(r.data, rp(r.data, prev(r.pos)), ecnt(row(f.file, "isEmptyStream"), off(f.file), k))
    step [name] rid(r.data, prev(r.pos)) == 0x11 && vint(r.data, prev(r.pos) + 1) > 0 && int(vint(r.data, prev(r.pos) + 1)) < 0x100000000000000 ==> forall k :: {f.file[k].Name} 0 <= k && k < int(files) ==> f.file[k].Name == nmTok(r.data, rp(r.data, prev(r.pos)) + 1, int(vint(r.data, prev(r.pos) + 1)) - 1, k)
    step [ctime] rid(r.data, prev(r.pos)) == 0x12 ==> forall k :: {f.file[k].Created} 0 <= k && k < int(files) ==> f.file[k].Created == tmAt(r.data, rp(r.data, prev(r.pos)), int(files), k)
    step [atime] rid(r.data, prev(r.pos)) == 0x13 ==> forall k :: {f.file[k].Accessed} 0 <= k && k < int(files) ==> f.file[k].Accessed == tmAt(r.data, rp(r.data, prev(r.pos)), int(files), k)
    step [mtime] rid(r.data, prev(r.pos)) == 0x14 ==> forall k :: {f.file[k].Modified} 0 <= k && k < int(files) ==> f.file[k].Modified == tmAt(r.data, rp(r.data, prev(r.pos)), int(files), k)
    step [attr] rid(r.data, prev(r.pos)) == 0x15 ==> forall k :: {f.file[k].Attributes} 0 <= k && k < int(files) ==> f.file[k].Attributes == atAt(r.data, rp(r.data, prev(r.pos)), int(files), k)
    step [keep-stream] rid(r.data, prev(r.pos)) != 0x0e ==> forall k :: {f.file[k].isEmptyStream} 0 <= k && k < int(files) ==> f.file[k].isEmptyStream == prev(f.file[k].isEmptyStream)
    step [keep-file] rid(r.data, prev(r.pos)) != 0x0e && rid(r.data, prev(r.pos)) != 0x0f ==> forall k :: {f.file[k].isEmptyFile} 0 <= k && k < int(files) ==> f.file[k].isEmptyFile == prev(f.file[k].isEmptyFile)
    step [keep-name] rid(r.data, prev(r.pos)) != 0x11 ==> forall k :: {f.file[k].Name} 0 <= k && k < int(files) ==> f.file[k].Name == prev(f.file[k].Name)
    step [keep-ctime] rid(r.data, prev(r.pos)) != 0x12 ==> forall k :: {f.file[k].Created} 0 <= k && k < int(files) ==> f.file[k].Created == prev(f.file[k].Created)
    step [keep-atime] rid(r.data, prev(r.pos)) != 0x13 ==> forall k :: {f.file[k].Accessed} 0 <= k && k < int(files) ==> f.file[k].Accessed == prev(f.file[k].Accessed)
    step [keep-mtime] rid(r.data, prev(r.pos)) != 0x14 ==> forall k :: {f.file[k].Modified} 0 <= k && k < int(files) ==> f.file[k].Modified == prev(f.file[k].Modified)
    step [keep-attr] rid(r.data, prev(r.pos)) != 0x15 ==> forall k :: {f.file[k].Attributes} 0 <= k && k < int(files) ==> f.file[k].Attributes == prev(f.file[k].Attributes)
    step [next] (rid(r.data, prev(r.pos)) == 0x0e ==> r.pos == rp(r.data, prev(r.pos)) + ((int(files) + 7) >> 3)) && (rid(r.data, prev(r.pos)) >= 0x12 && rid(r.data, prev(r.pos)) <= 0x14 ==> r.pos == tmNext(r.data, rp(r.data, prev(r.pos)), int(files))) && (rid(r.data, prev(r.pos)) == 0x15 ==> r.pos == atNext(r.data, rp(r.data, prev(r.pos)), int(files)))
  loop 2
    vars f *filesInfo; emptyStreams uint64; empty []bool; files uint64
    invariant [len] len(f.file) == int(files) && len(empty) == int(files) && $i <= int(files)
    invariant [val] forall k :: {f.file[k].isEmptyStream} 0 <= k && k < $i ==> f.file[k].isEmptyStream == empty[k] && !f.file[k].isEmptyFile
    invariant [cnt] int(emptyStreams) == ecnt(row(empty), off(empty), $i) && int(emptyStreams) <= $i
    use ecnt_eq(row(f.file, "isEmptyStream"), off(f.file), row(empty), off(empty), $i)
  loop 3
    vars f *filesInfo; emptyStreams uint64; empty []bool; files uint64; j int
    invariant [len] len(f.file) == int(files) && len(empty) == int(emptyStreams) && $i <= int(files)
    invariant [cnt] j == ecnt(row(f.file, "isEmptyStream"), off(f.file), $i) && 0 <= j
    use ecnt_mono(row(f.file, "isEmptyStream"), off(f.file), $i + 1, int(files))
    invariant [val] forall k :: {f.file[k].isEmptyFile} 0 <= k && k < $i && f.file[k].isEmptyStream ==> f.file[k].isEmptyFile == empty[ecnt(row(f.file, "isEmptyStream"), off(f.file), k)]
    use forall k :: {f.file[k].isEmptyFile} 0 <= k && k < int(files) ==> ecnt_seg(row(f.file, "isEmptyStream"), off(f.file), k, int(files))
    invariant [sub] forall k :: {f.file[k].isEmptyFile} 0 <= k && k < int(files) && f.file[k].isEmptyFile ==> f.file[k].isEmptyStream
  loop 4
    vars f *filesInfo; times []time.Time; files uint64
    invariant [val] len(f.file) == int(files) && len(times) == int(files) && $i <= int(files) && (forall k :: {f.file[k].Created} 0 <= k && k < $i ==> f.file[k].Created == times[k])
  loop 5
    vars f *filesInfo; times []time.Time; files uint64
    invariant [val] len(f.file) == int(files) && len(times) == int(files) && $i <= int(files) && (forall k :: {f.file[k].Accessed} 0 <= k && k < $i ==> f.file[k].Accessed == times[k])
  loop 6
    vars f *filesInfo; times []time.Time; files uint64
    invariant [val] len(f.file) == int(files) && len(times) == int(files) && $i <= int(files) && (forall k :: {f.file[k].Modified} 0 <= k && k < $i ==> f.file[k].Modified == times[k])
  loop 7
    vars f *filesInfo; names []string; files uint64
    invariant [val] len(f.file) == int(files) && len(names) == int(files) && $i <= int(files) && (forall k :: {f.file[k].Name} 0 <= k && k < $i ==> f.file[k].Name == names[k])
  loop 8
    vars f *filesInfo; attributes []uint32; files uint64
    invariant [val] len(f.file) == int(files) && len(attributes) == int(files) && $i <= int(files) && (forall k :: {f.file[k].Attributes} 0 <= k && k < $i ==> f.file[k].Attributes == attributes[k])
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (f != nil) && (f != nil ==> fresh(f))
  ensures [len] err == nil ==> len(f.file) == int(vint(r.data, old(r.pos))) && len(f.file) <= 0xffffffff
  ensures [fresh] err == nil ==> fresh(arr(f.file))
  ensures [sub] err == nil ==> forall k :: {f.file[k].isEmptyFile} 0 <= k && k < len(f.file) && f.file[k].isEmptyFile ==> f.file[k].isEmptyStream

pure okHeader(h) bool = (h.streamsInfo != nil ==> okSI(h.streamsInfo)) && (h.filesInfo != nil ==> len(h.filesInfo.file) <= 0xffffffff)

func sevenzip.readHeader(r) (h, err)
  props C02, C03, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars j int; files uint64
    invariant [ok] okHeader(h) && h.filesInfo != nil && fresh(h)
    invariant [j] j == $i - ecnt(row(h.filesInfo.file, "isEmptyStream"), off(h.filesInfo.file), $i) && 0 <= j && $i <= len(h.filesInfo.file)
    invariant [files] int(files) == (h.streamsInfo == nil || h.streamsInfo.unpackInfo == nil ? 0 : h.streamsInfo.subStreamsInfo == nil ? len(h.streamsInfo.unpackInfo.folder) : nfiles(h.streamsInfo.subStreamsInfo.streams, len(h.streamsInfo.subStreamsInfo.streams)))
    invariant [fit] j <= int(files)
    use ecnt_mono(row(h.filesInfo.file, "isEmptyStream"), off(h.filesInfo.file), $i, $i + 1)
    step [order] prev(j) == $i - 1 - ecnt(row(h.filesInfo.file, "isEmptyStream"), off(h.filesInfo.file), $i - 1) && j == prev(j) + (h.filesInfo.file[$i - 1].isEmptyStream ? 0 : 1)
    step [crcfolder] !h.filesInfo.file[$i - 1].isEmptyStream && h.streamsInfo.subStreamsInfo == nil ==> h.filesInfo.file[$i - 1].CRC32 == (len(h.streamsInfo.unpackInfo.digest) > 0 ? h.streamsInfo.unpackInfo.digest[prev(j)] : u32(0))
    step [crcsub] !h.filesInfo.file[$i - 1].isEmptyStream && h.streamsInfo.subStreamsInfo != nil && len(h.streamsInfo.unpackInfo.digest) == 0 ==> h.filesInfo.file[$i - 1].CRC32 == (len(h.streamsInfo.subStreamsInfo.digest) > 0 ? h.streamsInfo.subStreamsInfo.digest[prev(j)] : u32(0))
    step [empty] h.filesInfo.file[$i - 1].isEmptyStream ==> h.filesInfo.file[$i - 1].CRC32 == prev(h.filesInfo.file[$i].CRC32) && h.filesInfo.file[$i - 1].UncompressedSize == prev(h.filesInfo.file[$i].UncompressedSize)
    step [keep] forall k :: {h.filesInfo.file[k].UncompressedSize} 0 <= k && k != $i - 1 ==> h.filesInfo.file[k].UncompressedSize == prev(h.filesInfo.file[k].UncompressedSize)
    step [keepcrc] forall k :: {h.filesInfo.file[k].CRC32} 0 <= k && k != $i - 1 ==> h.filesInfo.file[k].CRC32 == prev(h.filesInfo.file[k].CRC32)
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (h != nil) && (h != nil ==> fresh(h))
  ensures [ok] err == nil ==> okHeader(h)
  ensures [fit] err == nil && h.filesInfo != nil ==> len(h.filesInfo.file) - ecnt(row(h.filesInfo.file, "isEmptyStream"), off(h.filesInfo.file), len(h.filesInfo.file)) <= (h.streamsInfo == nil || h.streamsInfo.unpackInfo == nil ? 0 : h.streamsInfo.subStreamsInfo == nil ? len(h.streamsInfo.unpackInfo.folder) : nfiles(h.streamsInfo.subStreamsInfo.streams, len(h.streamsInfo.subStreamsInfo.streams)))

func sevenzip.readEncodedHeader(r) (h, err)
  props C02, C04
  requires stream(r)
  modifies r.pos
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (h != nil) && (h != nil ==> fresh(h))
  ensures [id] err == nil ==> r.data[old(r.pos)] == 0x01
  ensures [ok] err == nil ==> okHeader(h)
