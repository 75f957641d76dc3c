// C10: folder readers.

// CRC-32 of bytes [s, e) of d, continuing from c
uf crcStep(c u32, b u8) u32
rec crcOf(c u32, d bytes, s int, e int) u32 = e <= s ? c : crcStep(crcOf(c, d, s, e - 1), d[e - 1])
lemma crc_shift(d bytes, s int, x bytes, y int, t int, c u32, n int)
  requires 0 <= n && s <= t && (forall k :: {x[k]} y <= k && k < y + n ==> x[k] == d[t + k - y])
  ensures crcOf(crcOf(c, d, s, t), x, y, y + n) == crcOf(c, d, s, t + n)
  induct n

ghost crc u32

extern io.Writer.Write(w, p) (n, err)
  modifies w.crc
  ensures w.crc == crcOf(old(w.crc), row(p), off(p), off(p) + len(p)) && n == len(p) && err == nil
extern hash.Hash.Sum(h, b) (r)
  requires b == nil
  ensures len(r) == 4 && fresh(arr(r)) && off(r) == 0 && be32(row(r), 0) == h.crc
extern hash/crc32.NewIEEE() (h)
  ensures h != nil && fresh(h) && h.crc == 0 && is(h, "*hash/crc32.digest")


// a folder reader: everything read from the folder's content (src) passes
// through the hash and the counter
pure frSrc(rc) ref = dyn(rc.ReadCloser, "*github.com/bodgit/plumbing.teeReadCloser").r
pure frTee(rc) bool = is(rc.ReadCloser, "*github.com/bodgit/plumbing.teeReadCloser") && let t = dyn(rc.ReadCloser, "*github.com/bodgit/plumbing.teeReadCloser") ::
   t != nil && is(t.w, "*io.multiWriter") && (let w = dyn(t.w, "*io.multiWriter") :: w != nil && len(w.writers) == 2 && w.writers[0] == rc.h && is(w.writers[1], "*github.com/bodgit/plumbing.WriteCounter") && dyn(w.writers[1], "*github.com/bodgit/plumbing.WriteCounter") == rc.wc)
pure frOK(rc) bool = rc != nil && rc.h != nil && rc.wc != nil && stream(frSrc(rc)) && 0 <= frSrc(rc).start && frSrc(rc).start <= frSrc(rc).pos && frTee(rc)
   && int(rc.wc.count) == frSrc(rc).pos - frSrc(rc).start && rc.h.crc == crcOf(0, frSrc(rc).data, frSrc(rc).start, frSrc(rc).pos)

func sevenzip.newFolderReadCloser(rc, size, hasEncryption) (nrc)
  props C10, C04
  requires stream(rc)
  modifies rc.start
  set true :: rc.start = rc.pos
  ensures [tee] frTee(nrc)
  ensures [ok] frOK(nrc) && fresh(nrc) && frSrc(nrc) == rc && rc.start == rc.pos
  ensures [size] nrc.size == size && nrc.hasEncryption == hasEncryption

func sevenzip.folderReadCloser.Read(rc, p) (n, err)
  props C10, C08, C04
  requires frOK(rc) && arr(p) >= 0
  modifies frSrc(rc).pos, elems(p), rc.h.crc, rc.wc.count
  use crc_shift(frSrc(rc).data, frSrc(rc).start, row(p), off(p), old(frSrc(rc).pos), 0, n)
  ensures [tee] frTee(rc)
  ensures [cnt] int(rc.wc.count) == frSrc(rc).pos - frSrc(rc).start
  ensures [crc] rc.h.crc == crcOf(0, frSrc(rc).data, frSrc(rc).start, frSrc(rc).pos)
  ensures [ok] frOK(rc)
  ensures [count] 0 <= n && n <= len(p) && frSrc(rc).pos == old(frSrc(rc).pos) + n
  ensures [end] err != nil ==> frSrc(rc).pos == frSrc(rc).end && (errIs(err, io.EOF) <==> frSrc(rc).clean)
  ensures [stuck] old(frSrc(rc).pos) == frSrc(rc).end && len(p) > 0 ==> err != nil
  ensures [data] forall k :: {p[k]} 0 <= k && k < n ==> p[k] == frSrc(rc).data[old(frSrc(rc).pos) + k]

pure skTarget(rc, offset, whence) int = int(offset) + (whence == 0 ? 0 : whence == 1 ? old(frSrc(rc).pos) - frSrc(rc).start : int(rc.size))

func sevenzip.folderReadCloser.Size(rc) (n)
  props C10, C04
  requires rc != nil
  ensures [value] n == rc.size

func sevenzip.folderReadCloser.Checksum(rc) (b)
  props C10, C05, C04
  requires frOK(rc)
  ensures [value] len(b) == 4 && be32(row(b), off(b)) == crcOf(0, frSrc(rc).data, frSrc(rc).start, frSrc(rc).pos)

// io.CopyN only takes bytes from the reader by Read, whose contract is above
extern io.CopyN@sevenzip.folderReadCloser(dst, r, n) (w, err)
  requires frOK(dyn(r, "*sevenzip.folderReadCloser")) && dst == io.Discard
  modifies frSrc(dyn(r, "*sevenzip.folderReadCloser")).pos, dyn(r, "*sevenzip.folderReadCloser").h.crc, dyn(r, "*sevenzip.folderReadCloser").wc.count
  ensures frOK(dyn(r, "*sevenzip.folderReadCloser"))
  ensures let s = frSrc(dyn(r, "*sevenzip.folderReadCloser")) :: 0 <= w && s.pos == old(s.pos) + int(w) && int(w) <= max(0, int(n)) && (err == nil ==> int(w) == max(0, int(n))) && (err != nil ==> int(w) < int(n))

func sevenzip.folderReadCloser.Seek(rc, offset, whence) (newo, err)
  props C10, C08, C04
  requires frOK(rc)
  modifies frSrc(rc).pos, rc.h.crc, rc.wc.count
  ensures [ok] frOK(rc)
  ensures [whence] whence != 0 && whence != 1 && whence != 2 ==> err != nil
  ensures [target] err == nil ==> int(newo) == skTarget(rc, offset, whence) && 0 <= newo && newo <= rc.size && frSrc(rc).pos - frSrc(rc).start == int(newo) && old(frSrc(rc).pos) <= frSrc(rc).pos
  ensures [refuse] 0 <= whence && whence <= 2 && (skTarget(rc, offset, whence) < old(frSrc(rc).pos) - frSrc(rc).start || skTarget(rc, offset, whence) > rc.size) ==> err != nil
  ensures [unchanged] err != nil && !(0 <= whence && whence <= 2 && old(frSrc(rc).pos) - frSrc(rc).start <= skTarget(rc, offset, whence) && skTarget(rc, offset, whence) <= rc.size) ==> frSrc(rc).pos == old(frSrc(rc).pos)
  ensures [within] err != nil ==> old(frSrc(rc).pos) <= frSrc(rc).pos
  ensures [tell] whence == 1 && offset == 0 && old(frSrc(rc).pos) - frSrc(rc).start <= rc.size ==> err == nil && frSrc(rc).pos == old(frSrc(rc).pos)
