// C05, C06 and the positions of C08: finding and opening an archive.
//
// A source (io.ReaderAt) has the bytes at[0..asize).
ghost at bytes
ghost asize int

// the bytes [so, so+n) of s occur in d at p
rec occ(d bytes, p int, s bytes, so int, n int) bool = n <= 0 || occ(d, p, s, so, n - 1) && d[p + n - 1] == s[so + n - 1]
// the same bytes at another place
lemma occ_shift(d bytes, e bytes, by int, x int, s bytes, so int, n int)
  requires forall k :: {d[k]} x <= k && k < x + n ==> d[k] == e[k + by]
  ensures occ(e, x + by, s, so, n) == occ(d, x, s, so, n)
  induct n
lemma occ_moved(d bytes, e bytes, by int, lo int, hi int, s bytes, so int, n int)
  requires forall k :: {d[k]} lo <= k && k < hi ==> d[k] == e[k + by]
  ensures forall x :: {occ(e, x, s, so, n)} lo + by <= x && x + n <= hi + by ==> occ(e, x, s, so, n) == occ(d, x - by, s, so, n)
  use occ_shift(d, e, by, x - by, s, so, n)

extern io.ReaderAt.ReadAt(r, p, o) (n, err)
  requires 0 <= o
  modifies elems(p)
  ensures 0 <= n && n <= len(p) && (n > 0 ==> int(o) + n <= r.asize)
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.at[int(o) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err == nil ==> n == len(p)
  ensures err != nil && (errIs(err, io.EOF) || errIs(err, io.ErrUnexpectedEOF)) ==> int(o) + n >= r.asize
extern bytes.Index(s, sep) (i)
  ensures -1 <= i && i + len(sep) <= len(s) + (i < 0 ? len(sep) + 1 : 0)
  ensures i >= 0 ==> occ(row(s), off(s) + i, row(sep), off(sep), len(sep))
  ensures forall k :: {occ(row(s), k, row(sep), off(sep), len(sep))} off(s) <= k && k + len(sep) <= off(s) + len(s) && (i >= 0 ==> k < off(s) + i) ==> !occ(row(s), k, row(sep), off(sep), len(sep))

pure occAt(r, x, search) bool = occ(r.at, x, row(search), off(search), len(search))
pure listed(offsets, x) bool = exists i :: {offsets[i]} 0 <= i && i < len(offsets) && int(offsets[i]) == x

func sevenzip.findSignature(r, search) (offsets, err)
  props C06, C04
  requires r != nil && 1 <= len(search) && len(search) <= 64
  loop 1
    vars offset int64; offsets []int64; chunk []byte
    invariant [mem] len(chunk) == 4096 + len(search) && fresh(arr(chunk)) && fresh(arr(offsets)) && off(chunk) == 0
    invariant [search] row(search) == old(row(search))
    invariant [step] int(offset) % 4096 == 0 && 0 <= offset && offset <= 0x100000 && len(offsets) <= int(offset) * 2
    invariant [sorted] forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> 0 < int(offsets[k]) && int(offsets[k]) <= int(offset)
    invariant [order] forall j, k :: {offsets[j], offsets[k]} 0 <= j && j <= k && k < len(offsets) ==> offsets[j] <= offsets[k]
    invariant [occ] forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> occAt(r, int(offsets[k]), search) && int(offsets[k]) + len(search) <= r.asize
    invariant [all] forall x :: {occ(r.at, x, row(search), off(search), len(search))} 0 <= x && x < int(offset) && x + len(search) <= r.asize && occAt(r, x, search) ==> listed(offsets, x)
  loop 2
    vars offset int64; offsets []int64; chunk []byte; i int; n int
    use occ_moved(row(chunk), r.at, int(offset), 0, n, row(search), off(search), len(search))
    invariant [mem] len(chunk) == 4096 + len(search) && fresh(arr(chunk)) && fresh(arr(offsets)) && off(chunk) == 0 && 0 <= i && i <= max(0, n - len(search) + 1) && n <= len(chunk) && len(offsets) <= int(offset) * 2 + i
    invariant [sorted] forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> 0 < int(offsets[k]) && int(offsets[k]) < int(offset) + max(i, 1)
    invariant [order] forall j, k :: {offsets[j], offsets[k]} 0 <= j && j <= k && k < len(offsets) ==> offsets[j] <= offsets[k]
    invariant [occ] forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> occAt(r, int(offsets[k]), search) && int(offsets[k]) + len(search) <= r.asize
    invariant [all] forall x :: {occ(r.at, x, row(search), off(search), len(search))} 0 <= x && x < int(offset) + i && x + len(search) <= int(offset) + n && x + len(search) <= r.asize && occAt(r, x, search) ==> listed(offsets, x)
  ensures [sorted] err == nil ==> forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> 0 <= offsets[k]
  ensures [order] err == nil ==> forall j, k :: {offsets[j], offsets[k]} 0 <= j && j <= k && k < len(offsets) ==> offsets[j] <= offsets[k]
  ensures [occ] err == nil ==> forall k :: {offsets[k]} 0 <= k && k < len(offsets) ==> occAt(r, int(offsets[k]), search) && int(offsets[k]) + len(search) <= r.asize
  ensures [first] err == nil && len(offsets) > 0 && offsets[0] == 0 ==> len(offsets) == 1
  ensures [all] err == nil && (len(offsets) == 0 || offsets[0] != 0) ==> forall x :: {occ(r.at, x, row(search), off(search), len(search))} 0 <= x && x < 0x100000 && x + len(search) <= r.asize && occAt(r, x, search) ==> listed(offsets, x)
