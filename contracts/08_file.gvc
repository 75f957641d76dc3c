// C08, C09, C21: files read exactly their slice of the folder's content.
//
// A folder reader knows the folder it was made for; pooled tells whether it is
// in the pool of that folder. What Put accepts is what Get returns.
ghost fsi ref
ghost ffolder int
ghost pfolder int
ghost psi ref
pure frcOf(x) ref = dyn(x, "*sevenzip.folderReadCloser")
// how often the source of a folder reader was closed
pure clo(x) int = let s = frSrc(frcOf(x)) :: s.closes
pure isFrc(x) bool = is(x, "*sevenzip.folderReadCloser") && frcOf(x) != nil && frOK(frcOf(x))
// the number of bytes taken from a folder reader
pure taken(x) int = let s = frSrc(frcOf(x)) :: s.pos - s.start

// the reader Get last gave
ghost given ref
extern pool.Pooler.Get(p, offset) (rc, ok)
  modifies p.top.pooled, p.top, p.given
  ensures p.given == ref(rc)
  ensures ok == (rc != nil)
  ensures rc != nil ==> is(rc, "*sevenzip.folderReadCloser")
  ensures rc != nil ==> allocated(ref(rc)) && ref(rc) == old(p.top) && isFrc(rc) && old(p.top.pooled) && !rc.pooled && taken(rc) <= int(offset) && (let r = frcOf(rc) :: r.ffolder == p.pfolder && r.fsi == p.psi)
extern pool.Pooler.Put(p, offset, rc) (ev, err)
  requires rc != nil && isFrc(rc) && !rc.pooled && clo(rc) == 0 && int(offset) == taken(rc) && (let r = frcOf(rc) :: r.ffolder == p.pfolder && r.fsi == p.psi)
  modifies rc.pooled, all(closes)
  ensures rc.pooled

// the reader of a file: fr.n bytes of it remain
pure fdPos(fr) bool = fr.rc == nil || taken(fr.rc) == int(fr.f.offset) + int(i64(fr.f.UncompressedSize)) - int(fr.n)
pure poolOf(f) ref = ref(f.zip.pool[f.folder])
pure fdOK(fr) bool = fr != nil && fr.f != nil && (fr.rc != nil ==> is(fr.rc, "*sevenzip.folderReadCloser")) && (fr.rc != nil ==> isFrc(fr.rc)) && fdPos(fr)

func sevenzip.fileReader.Read(fr, p) (n, err)
  props C08, C21, C04
  requires fdOK(fr) && arr(p) >= 0
  modifies fr.n, fr.failed, frSrc(frcOf(fr.rc)).pos, elems(p), frcOf(fr.rc).h.crc, frcOf(fr.rc).wc.count
  ensures [inv] fdOK(fr) && fr.rc == old(fr.rc) && fr.f == old(fr.f)
  ensures [count] 0 <= n && n <= len(p) && int(fr.n) == old(int(fr.n)) - n && (n > 0 ==> 0 <= fr.n)
  ensures [slice] forall k :: {p[k]} 0 <= k && k < n ==> (let s = frSrc(frcOf(fr.rc)) :: p[k] == s.data[s.start + int(fr.f.offset) + int(i64(fr.f.UncompressedSize)) - old(int(fr.n)) + k])
  ensures [open] n > 0 ==> fr.rc != nil
  ensures [eof] err != nil && fr.rc != nil && fr.n > 0 ==> (let s = frSrc(frcOf(fr.rc)) :: s.pos == s.end)
  assert [C08.complete] err != nil && fr.rc != nil && (let s = frSrc(frcOf(fr.rc)) :: s.clean) ==> fr.n <= 0
  ensures [closed] fr.rc == nil && old(fr.n) > 0 && len(p) > 0 ==> err != nil && errIs(err, fs.ErrClosed)
  ensures [empty] old(fr.n) <= 0 && len(p) > 0 ==> err != nil && errIs(err, io.EOF)
  ensures [clean] err != nil && fr.rc != nil && (let s = frSrc(frcOf(fr.rc)) :: s.clean) ==> errIs(err, io.EOF)
  ensures [error] err != nil && fr.rc != nil && old(fr.n) > 0 && (let s = frSrc(frcOf(fr.rc)) :: !s.clean) ==> is(err, "*sevenzip.ReadError") && (let e = dyn(err, "*sevenzip.ReadError") :: e != nil && e.Err != nil && !errIs(e.Err, io.EOF) && e.Encrypted == frcOf(fr.rc).hasEncryption)
  ensures [progress] err == nil && len(p) > 0 && old(fr.n) > 0 && fr.rc != nil ==> n > 0 || (let s = frSrc(frcOf(fr.rc)) :: s.pos < s.end)
  ensures [failed] fr.failed == (old(fr.failed) || err != nil && fr.rc != nil && old(fr.n) > 0 && (let s = frSrc(frcOf(fr.rc)) :: !s.clean))

func sevenzip.fileReader.Close(fr) (err)
  props C08, C09, C04
  requires fdOK(fr) && (fr.rc != nil ==> !fr.rc.pooled && clo(fr.rc) == 0 && fr.f.zip != nil && 0 <= fr.f.folder && fr.f.folder < len(fr.f.zip.pool) && fr.f.zip.pool[fr.f.folder] != nil && (let r = frcOf(fr.rc) :: let p = poolOf(fr.f) :: r.ffolder == p.pfolder && r.fsi == p.psi))
  modifies fr.rc, all(closes), fr.rc.pooled, frSrc(frcOf(fr.rc)).pos, frcOf(fr.rc).h.crc, frcOf(fr.rc).wc.count
  ensures [closed] fr.rc == nil && fdOK(fr)
  ensures [again] old(fr.rc) == nil ==> err == nil && (forall x ref :: {x.closes} x.closes == old(x.closes))
  ensures [once] old(fr.rc) != nil ==> (let r = old(fr.rc) :: r.pooled || clo(r) == 1)
  ensures [C09.failed] old(fr.rc) != nil && old(fr.failed) ==> (let r = old(fr.rc) :: !r.pooled && clo(r) == 1)
  ensures [end] old(fr.rc) != nil && old(taken(fr.rc)) == int(frcOf(old(fr.rc)).size) ==> (let r = old(fr.rc) :: !r.pooled && clo(r) == 1)
  ensures [kept] old(fr.rc) != nil && old(taken(fr.rc)) < int(frcOf(old(fr.rc)).size) && !old(fr.failed) ==> (let r = old(fr.rc) :: r.pooled)
  ensures [position] old(fr.rc) != nil ==> (old(taken(fr.rc)) <= int(frcOf(old(fr.rc)).size) ==> taken(old(fr.rc)) == old(taken(fr.rc)))

// an archive: one pool of readers for each folder
pure zipOK(z) bool = z != nil && (z.si != nil ==> z.si.unpackInfo != nil) && (forall k :: {z.pool[k]} 0 <= k && k < len(z.pool) ==> z.pool[k] != nil && (let p = ref(z.pool[k]) :: p.pfolder == k && p.psi == ref(z.si)))
pure hasContent(f) bool = !f.isEmptyStream && !f.isEmptyFile
pure fileOK(f) bool = f != nil && (hasContent(f) ==> zipOK(f.zip) && foldersOK(f.zip.si, f.folder) && f.folder < len(f.zip.pool))
func sevenzip.File.Open(f) (rc, err)
  props C08, C09, C21, C04
  requires fileOK(f)
  modifies all(pos), all(pw), all(lastcrypto), all(pooled), all(closes), all(crc), objs("github.com/bodgit/plumbing.WriteCounter"), all(top), all(given), (f.zip.si.unpackInfo.folder[f.folder]).outs, (f.zip.si.unpackInfo.folder[f.folder]).nenc
  ensures [reader] err == nil ==> is(rc, "*sevenzip.fileReader") && (let r = dyn(rc, "*sevenzip.fileReader") :: fresh(r) && fdOK(r) && r.f == f && !r.failed)
  ensures [empty] !hasContent(f) ==> err == nil && (let r = dyn(rc, "*sevenzip.fileReader") :: r.rc == nil && r.n == 0)
  ensures [all] err == nil && hasContent(f) ==> (let r = dyn(rc, "*sevenzip.fileReader") :: r.rc != nil && r.n == i64(f.UncompressedSize))
  ensures [C09.own] err == nil && hasContent(f) ==> (let r = dyn(rc, "*sevenzip.fileReader") :: let c = frcOf(r.rc) :: !c.pooled && c.ffolder == f.folder && c.fsi == ref(f.zip.si))
  ensures [C21.error] err != nil ==> rc == nil && is(err, "*sevenzip.ReadError") && (let e = dyn(err, "*sevenzip.ReadError") :: e != nil && e.Err != nil)
  ensures [C21.enc] err != nil ==> (let e = dyn(err, "*sevenzip.ReadError") :: let g = f.zip.pool[f.folder].given :: let fo = f.zip.si.unpackInfo.folder[f.folder] :: e.Encrypted == (g != nil ? ptr(g, "sevenzip.folderReadCloser").hasEncryption : fo.nenc > old((f.zip.si.unpackInfo.folder[f.folder]).nenc)))
