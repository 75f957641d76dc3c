// C14: what the branch filters and the AES decoder deliver does not depend on
// how they are read.

// A converter turns the byte stream cd, from position cst on, into its
// converted form; cpos bytes have been converted so far. cout is the
// converted byte at an index; that the five converters compute their
// reference function on whole instructions, so that it does not depend on
// where one call ends and the next begins, is C11.
ghost cd bytes
ghost cst int
ghost cpos int
uf cout(c ref, k int) u8
uf csize(c ref) int
extern bra.converter.Size(c) (n)
  ensures n == csize(ref(c)) && 1 <= n && n <= 16
extern bra.converter.Convert(c, b, encoding) (n)
  requires !encoding
  requires forall j :: {b[j]} 0 <= j && j < len(b) ==> b[j] == c.cd[c.cst + c.cpos + j]
  modifies elems(b), c.cpos
  ensures 0 <= n && n <= len(b) && len(b) - n < csize(ref(c)) && c.cpos == old(c.cpos) + n
  ensures forall k :: {row(b)[k]} off(b) <= k && k < off(b) + n ==> row(b)[k] == cout(ref(c), old(c.cpos) + k - off(b))
  ensures forall k :: {row(b)[k]} k < off(b) || k >= off(b) + n ==> row(b)[k] == old(row(b))[k]

// rc.n bytes at the front of the buffer are final, the rest is still as read;
// tail bytes too short for an instruction count as final only at the end
pure braGeom(rc) bool = rc != nil && rc.rc != nil && rc.conv != nil && stream(rc.rc) && bufOK(rc.buf) && 0 <= rc.n && rc.n <= rc.buf.blen
pure braDone(rc) int = rc.rc.pos - rc.buf.blen - rc.conv.cst
pure braTail(rc) bool = rc.rc.pos == rc.rc.end && rc.rc.clean && rc.n == rc.buf.blen && rc.rc.end - rc.conv.cst - rc.conv.cpos < csize(ref(rc.conv))
pure braCnt(rc) bool = 1 <= csize(ref(rc.conv)) && 0 <= braDone(rc) && (braDone(rc) + rc.n == rc.conv.cpos || braDone(rc) + rc.n > rc.conv.cpos && braTail(rc)) && rc.conv.cst >= 0 && rc.conv.cpos >= 0
pure braRaw(rc) bool = forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff + max(0, rc.conv.cpos - braDone(rc)) <= k && k < rc.buf.boff + rc.buf.blen ==> mem8(rc.buf.barr)[k] == rc.rc.data[rc.rc.pos - rc.buf.blen + k - rc.buf.boff]
pure braConv(rc) bool = forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff <= k && k < rc.buf.boff + rc.conv.cpos - braDone(rc) ==> mem8(rc.buf.barr)[k] == cout(ref(rc.conv), braDone(rc) + k - rc.buf.boff)
pure braSame(rc) bool = rc.conv.cd == rc.rc.data

func bra.readCloser.Read(rc, p) (n, err)
  props C14, C08, C04
  requires rc != nil && (rc.rc != nil ==> braGeom(rc) && braCnt(rc) && braRaw(rc) && braConv(rc) && braSame(rc))
  requires rc.rc != nil ==> arr(p) >= 0 && (rc.buf.barr == 0 || arr(p) != rc.buf.barr)
  modifies rc.n, rc.rc.pos, rc.conv.cpos, mem8(rc.buf.barr), rc.buf.barr, rc.buf.bbase, rc.buf.bcap, rc.buf.boff, rc.buf.blen, elems(p)
  ensures [closed] rc.rc == nil ==> n == 0 && err != nil && !errIs(err, io.EOF)
  ensures [geom] rc.rc != nil ==> braGeom(rc)
  ensures [count] rc.rc != nil ==> braCnt(rc) && braSame(rc)
  ensures [raw] rc.rc != nil ==> braRaw(rc)
  ensures [conv] rc.rc != nil ==> braConv(rc)
  ensures [delivered] rc.rc != nil ==> 0 <= n && n <= len(p) && braDone(rc) == old(braDone(rc)) + n
  ensures [order] rc.rc != nil ==> forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n && old(braDone(rc)) + k - off(p) < rc.conv.cpos ==> row(p)[k] == cout(ref(rc.conv), old(braDone(rc)) + k - off(p))
  ensures [tail] rc.rc != nil ==> forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n && old(braDone(rc)) + k - off(p) >= rc.conv.cpos ==> row(p)[k] == rc.rc.data[rc.conv.cst + old(braDone(rc)) + k - off(p)]
  ensures [progress] rc.rc != nil && err == nil && len(p) > 0 ==> n > 0
  ensures [eof] rc.rc != nil && errIs(err, io.EOF) ==> n == 0 && rc.rc.pos == rc.rc.end && rc.rc.clean && rc.buf.blen == 0
  ensures [fail] rc.rc != nil && err != nil && !errIs(err, io.EOF) ==> rc.rc.pos == rc.rc.end && !rc.rc.clean

func bra.newReader(readers, conv) (r, err)
  props C14, C22, C04
  requires conv != nil
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [nil] err != nil ==> r == nil
  ensures [fields] err == nil ==> is(r, "*bra.readCloser") && let d = dyn(r, "*bra.readCloser") :: fresh(d) && d.rc == readers[0] && d.conv == conv && d.n == 0 && d.buf.blen == 0 && bufOK(d.buf) && d.buf.barr == 0

func bra.readCloser.Close(rc) (err)
  props C16, C04
  requires rc != nil
  modifies rc.rc, rc.rc.closes
  ensures [again] old(rc.rc) == nil ==> err != nil && unchanged(rc.rc)
  ensures [source] old(rc.rc) != nil ==> old(rc.rc).closes == old(rc.rc.closes) + 1
  ensures [report] old(rc.rc) != nil && old(rc.rc).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.rc == nil

// ---- AES: cbc has decrypted the cpos bytes of the source that follow cst
uf cbcout(c ref, k int) u8
extern crypto/cipher.BlockMode.CryptBlocks(c, dst, src)
  requires len(src) % 16 == 0 && len(dst) >= len(src) && arr(dst) == arr(src) && off(dst) == off(src)
  requires forall j :: {src[j]} 0 <= j && j < len(src) ==> src[j] == c.cd[c.cst + c.cpos + j]
  modifies elems(dst), c.cpos
  ensures c.cpos == old(c.cpos) + len(src)
  ensures forall k :: {row(dst)[k]} off(dst) <= k && k < off(dst) + len(src) ==> row(dst)[k] == cbcout(ref(c), old(c.cpos) + k - off(dst))
  ensures forall k :: {row(dst)[k]} k < off(dst) || k >= off(dst) + len(src) ==> row(dst)[k] == old(row(dst))[k]

pure aesGeom(rc) bool = rc != nil && rc.rc != nil && rc.cbc != nil && stream(rc.rc) && bufOK(rc.buf) && rc.cbc.cst >= 0 && rc.cbc.cpos >= 0
   && rc.cbc.cd == rc.rc.data && rc.rc.pos == rc.cbc.cst + rc.cbc.cpos && rc.cbc.cpos % 16 == 0 && rc.buf.blen <= rc.cbc.cpos
pure aesBuf(rc) bool = forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff <= k && k < rc.buf.boff + rc.buf.blen ==> mem8(rc.buf.barr)[k] == cbcout(ref(rc.cbc), rc.cbc.cpos - rc.buf.blen + k - rc.buf.boff)
pure aesDone(rc) int = rc.cbc.cpos - rc.buf.blen

func aes7z.readCloser.Read(rc, p) (n, err)
  props C14, C08, C04
  requires rc != nil && (rc.rc != nil && rc.cbc != nil ==> aesGeom(rc) && aesBuf(rc))
  requires rc.rc != nil ==> arr(p) >= 0 && (rc.buf.barr == 0 || arr(p) != rc.buf.barr)
  modifies rc.rc.pos, rc.cbc.cpos, mem8(rc.buf.barr), rc.buf.barr, rc.buf.bbase, rc.buf.bcap, rc.buf.boff, rc.buf.blen, elems(p)
  loop 1
    invariant [geom] aesGeom(rc) && aesDone(rc) == old(aesDone(rc)) && 0 <= aesDone(rc)
    invariant [buf] aesBuf(rc)
    invariant [own] rc.buf.barr == old(rc.buf.barr) || fresh(rc.buf.barr)
    decreases len(p) - rc.buf.blen
  ensures [closed] rc.rc == nil ==> n == 0 && err != nil && !errIs(err, io.EOF)
  ensures [nokey] rc.rc != nil && rc.cbc == nil ==> n == 0 && err != nil && !errIs(err, io.EOF)
  ensures [geom] rc.rc != nil && rc.cbc != nil && (err == nil || errIs(err, io.EOF)) ==> aesGeom(rc)
  ensures [buf] rc.rc != nil && rc.cbc != nil && (err == nil || errIs(err, io.EOF)) ==> aesBuf(rc)
  ensures [delivered] rc.rc != nil && rc.cbc != nil ==> 0 <= n && n <= len(p) && aesDone(rc) == old(aesDone(rc)) + n
  ensures [order] rc.rc != nil && rc.cbc != nil ==> forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == cbcout(ref(rc.cbc), old(aesDone(rc)) + k - off(p))
  ensures [progress] rc.rc != nil && rc.cbc != nil && err == nil && len(p) > 0 ==> n > 0
  ensures [eof] rc.rc != nil && rc.cbc != nil && errIs(err, io.EOF) ==> n == 0 && rc.rc.pos == rc.rc.end && rc.rc.clean && rc.buf.blen == 0
  ensures [partial] rc.rc != nil && rc.cbc != nil && rc.rc.pos != rc.cbc.cst + rc.cbc.cpos ==> err != nil && !errIs(err, io.EOF)

func aes7z.readCloser.Close(rc) (err)
  props C16, C04
  requires rc != nil
  modifies rc.rc, rc.rc.closes
  ensures [again] old(rc.rc) == nil ==> err != nil && unchanged(rc.rc)
  ensures [source] old(rc.rc) != nil ==> old(rc.rc).closes == old(rc.rc.closes) + 1
  ensures [report] old(rc.rc) != nil && old(rc.rc).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.rc == nil

func delta.readCloser.Close(rc) (err)
  props C16, C04
  requires rc != nil
  modifies rc.rc, rc.rc.closes
  ensures [again] old(rc.rc) == nil ==> err != nil && unchanged(rc.rc)
  ensures [source] old(rc.rc) != nil ==> old(rc.rc).closes == old(rc.rc.closes) + 1
  ensures [report] old(rc.rc) != nil && old(rc.rc).clfail ==> err != nil
  ensures [closed] err == nil ==> rc.rc == nil
