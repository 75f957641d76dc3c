// C16 (and the constructor checks of C22): the readers around the decoders.
//
// A decoder that may be reused is either in its package's pool (pooled) or
// held by exactly one reader; src is the reader it takes its input from.
opaque sync.Pool
ghost pooled bool
ghost src ref
ghost closes int
ghost clfail bool

extern io.Closer.Close(c) (err)
  modifies c.closes
  ensures c.closes == old(c.closes) + 1
  ensures err != nil <==> c.clfail

// what Put accepts is what Get returns
ghost top ref
extern sync.Pool.Get(p) (x)
  modifies p.top.pooled, p.top
  ensures x != nil ==> ref(x) == old(p.top) && old(p.top.pooled) && !x.pooled && allocated(ref(x)) && ref(x) > 0
  ensures x != nil && ref(p) == addr("brotli.brotliReaderPool") ==> x.drained
  ensures x != nil && ref(p) == addr("deflate.flateReaderPool") ==> implements(x, "github.com/klauspost/compress/flate.Resetter") && implements(x, "io.ReadCloser")
extern sync.Pool.Put(p, x)
  requires x != nil && !x.pooled
  requires ref(p) == addr("brotli.brotliReaderPool") ==> x.drained
  requires ref(p) == addr("deflate.flateReaderPool") ==> implements(x, "github.com/klauspost/compress/flate.Resetter") && implements(x, "io.ReadCloser")
  modifies x.pooled
  ensures x.pooled

// a wrapper that adds ReadByte reads the same stream
func util.ByteReadCloser(r) (b)
  props C16, C04
  trusted the wrapper's ghost stream is defined to be that of the reader it wraps
  requires stream(r)
  ensures b != nil && b.data == r.data && b.pos == r.pos && b.end == r.end && b.clean == r.clean && b.clfail == r.clfail
  ensures ref(b) == ref(r) || fresh(b) && is(b, "*util.byteReadCloser") && ref(dyn(b, "*util.byteReadCloser").ReadCloser) == ref(r)

func util.byteReadCloser.ReadByte(rc) (b, err)
  props C16, C08, C04
  requires rc != nil && stream(rc.ReadCloser)
  modifies rc.ReadCloser.pos
  ensures [byte] err == nil ==> old(rc.ReadCloser.pos) < rc.ReadCloser.end && b == rc.ReadCloser.data[old(rc.ReadCloser.pos)] && rc.ReadCloser.pos == old(rc.ReadCloser.pos) + 1
  ensures [fail] err != nil ==> b == 0 && rc.ReadCloser.pos == old(rc.ReadCloser.pos)
  ensures [end] old(rc.ReadCloser.pos) >= rc.ReadCloser.end ==> err != nil && (errIs(err, io.EOF) <==> rc.ReadCloser.clean)

// ---- lz4
pure own_lz4(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> !rc.r.pooled && stream(rc.r) && rc.r.pos <= rc.r.end)
func lz4.readCloser.Close(rc) (err)
  props C16, C04
  requires own_lz4(rc)
  modifies rc.c, rc.r, rc.c.closes, rc.r.pooled
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_lz4(rc)
  ensures [release] old(rc.r) != nil && err != nil ==> !old(rc.r).pooled

func lz4.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_lz4(rc)
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_lz4(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)

extern github.com/pierrec/lz4/v4.Reader.Read(r, p) (n, err)
  requires stream(r) && !r.pooled
  modifies r.pos, elems(p)
  ensures 0 <= n && n <= len(p) && r.pos == old(r.pos) + n && r.pos <= r.end
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.data[old(r.pos) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean)
extern github.com/pierrec/lz4/v4.Reader.Reset(r, s)
  requires !r.pooled
  modifies r.src, r.pos
  ensures r.src == ref(s) && stream(r)
extern github.com/pierrec/lz4/v4.NewReader(s) (r)
  ensures r != nil && fresh(r) && !r.pooled && r.src == ref(s) && stream(r)
func lz4.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  modifies lz4ReaderPool.top, lz4ReaderPool.top.pooled, lz4ReaderPool.top.src, lz4ReaderPool.top.pos
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*lz4.readCloser") && let d = dyn(rc, "*lz4.readCloser") :: fresh(d) && d.r != nil && (let x = d.r :: !x.pooled && (fresh(x) || old(x.pooled))) && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
  ensures [source] err == nil ==> dyn(rc, "*lz4.readCloser").r.src == ref(readers[0])
// ---- zstd
// The decoder reads its source src in the background until it is reset; what
// it was reset from had been closed dclosed times by then.
ghost dclosed int
pure own_zstd(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> !rc.r.pooled && stream(rc.r) && rc.r.pos <= rc.r.end && (rc.r.src == 0 || rc.r.src == ref(rc.c)))
func zstd.readCloser.Close(rc) (err)
  props C16, C04
  requires own_zstd(rc)
  modifies rc.c, rc.r, rc.c.closes, rc.r.pooled, rc.r.src, rc.r.pos, rc.r.dclosed
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [idle] old(rc.r) != nil && old(rc.r.src) == ref(old(rc.c)) ==> old(rc.r).src == 0 && old(rc.r).dclosed == old(rc.c.closes)
  ensures [own] own_zstd(rc)
  ensures [release] old(rc.r) != nil && err != nil ==> !old(rc.r).pooled

func zstd.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_zstd(rc)
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_zstd(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)

extern github.com/klauspost/compress/zstd.Decoder.Read(r, p) (n, err)
  requires stream(r) && !r.pooled
  modifies r.pos, elems(p)
  ensures 0 <= n && n <= len(p) && r.pos == old(r.pos) + n && r.pos <= r.end
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.data[old(r.pos) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean)
extern github.com/klauspost/compress/zstd.Decoder.Reset(r, s) (err)
  requires !r.pooled
  modifies r.src, r.pos, r.dclosed
  ensures r.dclosed == old((r.src).closes)
  ensures err == nil ==> r.src == ref(s) && stream(r)
  ensures s == nil ==> err == nil && r.pos <= r.end
extern github.com/klauspost/compress/zstd.NewReader(s, opts) (r, err)
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> fresh(r) && !r.pooled && r.src == ref(s) && stream(r)
func zstd.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  modifies zstdReaderPool.top, zstdReaderPool.top.pooled, zstdReaderPool.top.src, zstdReaderPool.top.pos, zstdReaderPool.top.dclosed
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*zstd.readCloser") && let d = dyn(rc, "*zstd.readCloser") :: fresh(d) && d.r != nil && (let x = d.r :: !x.pooled && (fresh(x) || old(x.pooled))) && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
  ensures [source] err == nil ==> dyn(rc, "*zstd.readCloser").r.src == ref(readers[0])
// ---- bzip2
pure own_bzip2(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> stream(rc.r) && rc.r.pos <= rc.r.end)
func bzip2.readCloser.Close(rc) (err)
  props C16, C04
  requires own_bzip2(rc)
  modifies rc.c, rc.r, rc.c.closes
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_bzip2(rc)

func bzip2.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_bzip2(rc)
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_bzip2(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)

extern compress/bzip2.NewReader(s) (r)
  ensures r != nil && fresh(r) && r.src == ref(s) && stream(r)
func bzip2.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*bzip2.readCloser") && let d = dyn(rc, "*bzip2.readCloser") :: fresh(d) && d.r != nil && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
  ensures [source] err == nil ==> dyn(rc, "*bzip2.readCloser").r.src == ref(readers[0])
// ---- brotli
pure own_brotli(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> !rc.r.pooled && stream(rc.r))
func brotli.readCloser.Close(rc) (err)
  props C16, C04
  requires own_brotli(rc)
  modifies rc.c, rc.r, rc.c.closes, rc.r.pooled, rc.r.pos, rc.r.drained
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_brotli(rc)
  ensures [release] old(rc.r) != nil && err != nil ==> !old(rc.r).pooled

func brotli.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_brotli(rc)
  modifies rc.r.pos, rc.r.drained, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_brotli(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)

// Reset keeps what the decoder has buffered of its old source; only a decoder
// that has reported the end (drained) has nothing left
ghost drained bool
extern github.com/andybalholm/brotli.Reader.Read(r, p) (n, err)
  requires stream(r) && !r.pooled
  modifies r.pos, r.drained, elems(p)
  ensures errIs(err, io.EOF) ==> r.drained
  ensures 0 <= n && n <= len(p) && r.pos == old(r.pos) + n && r.pos <= r.end
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.data[old(r.pos) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean)
extern github.com/andybalholm/brotli.Reader.Reset(r, s) (err)
  requires !r.pooled && r.drained
  modifies r.src, r.pos
  ensures r.src == ref(s) && stream(r)
extern github.com/andybalholm/brotli.NewReader(s) (r)
  ensures r != nil && fresh(r) && !r.pooled && r.src == ref(s) && stream(r)
// what the concatenation of a byte buffer and a reader reads: cat0 holds the
// array the first len0 bytes come from, at off0, cat1 the rest
ghost cat0 ref
ghost off0 int
ghost len0 int
ghost cat1 ref
extern io.NopCloser(b) (c)
  requires is(b, "*bytes.Buffer")
  ensures c != nil && fresh(c) && c.cat0 == dyn(b, "*bytes.Buffer").barr && c.off0 == dyn(b, "*bytes.Buffer").boff && c.len0 == dyn(b, "*bytes.Buffer").blen
extern github.com/bodgit/plumbing.MultiReadCloser(rs) (c)
  requires len(rs) == 2
  ensures c != nil && fresh(c) && c.cat0 == rs[0].cat0 && c.off0 == rs[0].off0 && c.len0 == rs[0].len0 && c.cat1 == ref(rs[1])
pure brFrame(d bytes, p int) bool = le32(d, p) == 0x184d2a50 && le32(d, p + 4) == 8 && le16(d, p + 12) == 0x5242
func brotli.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k]) && !readers[k].pooled
  modifies readers[0].pos, brotliReaderPool.top.pooled, brotliReaderPool.top.src, brotliReaderPool.top.pos, brotliReaderPool.top
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [short] len(readers) == 1 && old(readers[0].pos) + 16 > readers[0].end ==> err != nil
  ensures [own] err == nil ==> is(rc, "*brotli.readCloser") && let d = dyn(rc, "*brotli.readCloser") :: fresh(d) && d.r != nil && (let x = d.r :: !x.pooled && (fresh(x) || old(x.pooled))) && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
  ensures [pos] err == nil ==> readers[0].pos == old(readers[0].pos) + 16
  ensures [frame] err == nil && brFrame(readers[0].data, old(readers[0].pos)) ==> dyn(rc, "*brotli.readCloser").r.src == ref(readers[0])
  ensures [noframe] err == nil && !brFrame(readers[0].data, old(readers[0].pos)) ==> let x = dyn(rc, "*brotli.readCloser").r.src :: x.cat1 == ref(readers[0]) && x.len0 == 16
  ensures [prefix] err == nil && !brFrame(readers[0].data, old(readers[0].pos)) ==> let x = dyn(rc, "*brotli.readCloser").r.src :: forall k :: {mem8(x.cat0)[k]} x.off0 <= k && k < x.off0 + 16 ==> mem8(x.cat0)[k] == readers[0].data[old(readers[0].pos) + k - x.off0]
// ---- lzma2
pure own_lzma2(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> stream(rc.r))
func lzma2.readCloser.Close(rc) (err)
  props C16, C04
  requires own_lzma2(rc)
  modifies rc.c, rc.r, rc.c.closes
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_lzma2(rc)

func lzma2.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_lzma2(rc)
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_lzma2(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)
// the dictionary size the property byte stands for
ghost dict int
extern github.com/ulikunitz/xz/lzma.Reader2Config.Verify(c) (err)
  modifies c.DictCap
  ensures old(c.DictCap) != 0 ==> c.DictCap == old(c.DictCap)
extern github.com/ulikunitz/xz/lzma.Reader2Config.NewReader2(c, s) (r, err)
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> fresh(r) && r.src == ref(s) && stream(r) && r.dict == c.DictCap
func lzma2.NewReader(p, s, readers) (rc, err)
  mode bv
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  ensures [args] len(readers) != 1 || len(p) != 1 || p[0] > 40 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*lzma2.readCloser") && let d = dyn(rc, "*lzma2.readCloser") :: fresh(d) && d.r != nil && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
  ensures [source] err == nil ==> dyn(rc, "*lzma2.readCloser").r.src == ref(readers[0])
  ensures [dict] err == nil ==> dyn(rc, "*lzma2.readCloser").r.dict == int(min((2 | (i64(p[0]) & 1)) << (p[0] / 2 + 11), 4294967295))
// ---- lzma
pure own_lzma(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && (rc.r != nil ==> stream(rc.r))
func lzma.readCloser.Close(rc) (err)
  props C16, C04
  requires own_lzma(rc)
  modifies rc.c, rc.r, rc.c.closes
  ensures [again] old(rc.c) == nil || old(rc.r) == nil ==> err != nil && unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_lzma(rc)

func lzma.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_lzma(rc)
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_lzma(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)
extern io.MultiReader(rs) (c)
  requires len(rs) == 2 && is(rs[0], "*bytes.Buffer")
  ensures c != nil && fresh(c) && c.cat0 == dyn(rs[0], "*bytes.Buffer").barr && c.off0 == dyn(rs[0], "*bytes.Buffer").boff && c.len0 == dyn(rs[0], "*bytes.Buffer").blen && c.cat1 == ref(rs[1]) && !is(c, "*lzma.multiByteReader")
// joined is the stream the decoder reads: the concatenation itself, or what
// the wrapper that also reads single bytes is made of
ghost joined ref
extern github.com/ulikunitz/xz/lzma.NewReader(s) (r, err)
  requires is(s, "*lzma.multiByteReader") ==> let m = dyn(s, "*lzma.multiByteReader") :: m.b != nil && m.b.barr == m.mr.cat0 && m.b.boff == m.mr.off0 && m.b.blen == m.mr.len0 && ref(m.br) == m.mr.cat1
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> fresh(r) && r.joined == (is(s, "*lzma.multiByteReader") ? ref(dyn(s, "*lzma.multiByteReader").mr) : ref(s)) && stream(r)
func lzma.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires cap(p) == len(p) && (forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k]))
  modifies mem8(arr(p))
  ensures [props] row(p) == old(row(p))
  ensures [header] err == nil ==> let x = dyn(rc, "*lzma.readCloser").r.joined :: x.len0 == 13 && x.cat1 == ref(readers[0])
  ensures [size] err == nil ==> let x = dyn(rc, "*lzma.readCloser").r.joined :: let m = mem8(x.cat0) :: let o = x.off0 + 5 :: m[o] == u8(s) && m[o + 1] == u8(s >> 8) && m[o + 2] == u8(s >> 16) && m[o + 3] == u8(s >> 24) && m[o + 4] == u8(s >> 32) && m[o + 5] == u8(s >> 40) && m[o + 6] == u8(s >> 48) && m[o + 7] == u8(s >> 56)
  ensures [bytes] err == nil ==> let x = dyn(rc, "*lzma.readCloser").r.joined :: forall k :: {mem8(x.cat0)[k]} x.off0 <= k && k < x.off0 + 5 ==> mem8(x.cat0)[k] == p[k - x.off0]
  ensures [args] len(readers) != 1 || len(p) != 5 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*lzma.readCloser") && let d = dyn(rc, "*lzma.readCloser") :: fresh(d) && d.r != nil && stream(d.r) && d.c != nil && ref(d.c) == ref(readers[0])
// ---- ppmd
// the parameters of the PPMd decoder that reads from a source are ghosts of
// that source (the decoder itself is a struct value, which has no identity)
pure own_ppmd(rc) bool = rc != nil && (rc.c == nil) == (rc.r == nil) && true
func ppmd.readCloser.Close(rc) (err)
  props C16, C04
  requires own_ppmd(rc)
  modifies rc.c, rc.r, rc.c.closes
  ensures [again] old(rc.c) == nil ==> unchanged(rc.c, rc.r)
  ensures [source] old(rc.c) != nil && old(rc.r) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.r) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.r == nil
  ensures [own] own_ppmd(rc)

func ppmd.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_ppmd(rc) && (rc.r != nil ==> stream(rc.r))
  modifies rc.r.pos, elems(p)
  ensures [closed] old(rc.r) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_ppmd(rc)
  ensures [data] old(rc.r) != nil ==> 0 <= n && n <= len(p) && rc.r.pos == old(rc.r.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.r.data[old(rc.r.pos) + k])
  ensures [eof] old(rc.r) != nil && err != nil ==> rc.r.pos == rc.r.end && (errIs(err, io.EOF) <==> rc.r.clean)
ghost order int
ghost memory int
ghost usize int
extern github.com/stangelandcl/ppmd.NewH7zReader(s, o, m, u) (r, err)
  requires stream(s)
  modifies s.order, s.memory, s.usize
  ensures err == nil ==> s.order == o && s.memory == m && s.usize == u
func ppmd.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  modifies readers[0].order, readers[0].memory, readers[0].usize
  ensures [params] err == nil ==> readers[0].order == int(p[0]) && u64(readers[0].memory) == u64(le32(row(p), off(p) + 1)) && u64(readers[0].usize) == s
  ensures [args] len(readers) != 1 || len(p) != 5 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*ppmd.readCloser") && let d = dyn(rc, "*ppmd.readCloser") :: fresh(d) && d.r != nil && d.c != nil && ref(d.c) == ref(readers[0])
// ---- deflate
pure own_deflate(rc) bool = rc != nil && (rc.c == nil) == (rc.fr == nil) && (rc.fr != nil ==> !rc.fr.pooled && stream(rc.fr) && implements(rc.fr, "github.com/klauspost/compress/flate.Resetter") && implements(rc.fr, "io.ReadCloser"))
func deflate.readCloser.Close(rc) (err)
  props C16, C04
  requires own_deflate(rc)
  modifies rc.c, rc.fr, rc.c.closes, rc.fr.closes, rc.fr.pooled
  ensures [again] old(rc.c) == nil || old(rc.fr) == nil ==> err != nil && unchanged(rc.c, rc.fr)
  ensures [source] old(rc.c) != nil && old(rc.fr) != nil ==> old(rc.c).closes >= old(rc.c.closes) + 1
  ensures [report] old(rc.c) != nil && old(rc.fr) != nil && old(rc.c).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.c == nil && rc.fr == nil
  ensures [own] own_deflate(rc)
  ensures [release] old(rc.fr) != nil && err != nil ==> !old(rc.fr).pooled

func deflate.readCloser.Read(rc, p) (n, err)
  props C16, C08, C04
  requires own_deflate(rc)
  modifies rc.fr.pos, elems(p)
  ensures [closed] old(rc.fr) == nil ==> err != nil && n == 0 && !errIs(err, io.EOF)
  ensures [own] own_deflate(rc)
  ensures [data] old(rc.fr) != nil ==> 0 <= n && n <= len(p) && rc.fr.pos == old(rc.fr.pos) + n && (forall k :: {p[k]} 0 <= k && k < n ==> p[k] == rc.fr.data[old(rc.fr.pos) + k])
  ensures [eof] old(rc.fr) != nil && err != nil ==> rc.fr.pos == rc.fr.end && (errIs(err, io.EOF) <==> rc.fr.clean)

extern github.com/klauspost/compress/flate.Resetter.Reset(r, s, d) (err)
  requires !r.pooled && len(d) == 0
  modifies r.src, r.pos
  ensures err == nil ==> r.src == ref(s) && stream(r)
extern github.com/klauspost/compress/flate.NewReader(s) (r)
  ensures r != nil && fresh(r) && !r.pooled && r.src == ref(s) && stream(r) && implements(r, "github.com/klauspost/compress/flate.Resetter") && implements(r, "io.ReadCloser")
func deflate.NewReader(p, s, readers) (rc, err)
  props C16, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k]) && !readers[k].pooled
  modifies flateReaderPool.top.pooled, flateReaderPool.top.src, flateReaderPool.top.pos, flateReaderPool.top
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [nil] (err == nil) == (rc != nil)
  ensures [own] err == nil ==> is(rc, "*deflate.readCloser") && let d = dyn(rc, "*deflate.readCloser") :: fresh(d) && own_deflate(d) && d.fr != nil && (let x = d.fr :: fresh(x) || old(x.pooled)) && ref(d.c) == ref(readers[0])
  ensures [source] err == nil ==> let x = dyn(rc, "*deflate.readCloser").fr.src :: x == ref(readers[0]) || ref(ptr(x, "util.byteReadCloser").ReadCloser) == ref(readers[0])
