// C02: pack information, coders, folders, unpack information, substreams.

// digest lists
pure crcAt(d bytes, p int, n int, k int) u32 = obAt(d, p, k) ? le32(d, obNext(d, p, n) + 4 * ocnt(d, p, k)) : u32(0)
rec crcNext(d bytes, p int, n int) int = obNext(d, p, n) + 4 * ocnt(d, p, n)

// pack information: position, number of streams, [sizes], [digests], end
rec pkN(d bytes, p int) int = int(vint(d, vnext(d, p)))
rec pk2(d bytes, p int) int = vnext(d, vnext(d, p)) + 1
pure pkHasSize(d bytes, p int) bool = d[pk2(d, p) - 1] == 0x09
rec pk3(d bytes, p int) int = pkHasSize(d, p) ? spos(d, pk2(d, p), pkN(d, p)) + 1 : pk2(d, p)
pure pkHasCRC(d bytes, p int) bool = d[pk3(d, p) - 1] == 0x0a
rec pkNext(d bytes, p int) int = pkHasCRC(d, p) ? crcNext(d, pk3(d, p), pkN(d, p)) + 1 : pk3(d, p)

func sevenzip.readPackInfo(r) (p, err)
  props C02, C04
  requires stream(r)
  modifies r.pos
  use spos_mono(r.data, pk2(r.data, old(r.pos)), 0, pkN(r.data, old(r.pos)))
  use ocnt_mono(r.data, pk3(r.data, old(r.pos)), 0, pkN(r.data, old(r.pos)))
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (p != nil) && (p != nil ==> fresh(p))
  ensures [position] err == nil ==> p.position == vint(r.data, old(r.pos)) && int(p.streams) == pkN(r.data, old(r.pos)) && p.streams != 0 && int(p.streams) <= 0xffffffff
  ensures [size] err == nil ==> (pkHasSize(r.data, old(r.pos)) ? len(p.size) == int(p.streams) && (forall k :: {p.size[k]} 0 <= k && k < len(p.size) ==> p.size[k] == vint(r.data, spos(r.data, pk2(r.data, old(r.pos)), k))) : p.size == nil)
  ensures [C02.digest] err == nil ==> (pkHasCRC(r.data, old(r.pos)) ? len(p.digest) == int(p.streams) && (forall k :: {p.digest[k]} 0 <= k && k < len(p.digest) ==> p.digest[k] == crcAt(r.data, pk3(r.data, old(r.pos)), int(p.streams), k)) : p.digest == nil)
  ensures [end] err == nil ==> r.pos == pkNext(r.data, old(r.pos)) && r.data[r.pos - 1] == 0
  ensures [C02.complete] err == nil <==> old(r.pos) < r.end && pkNext(r.data, old(r.pos)) <= r.end && r.data[pkNext(r.data, old(r.pos)) - 1] == 0 && 0 < pkN(r.data, old(r.pos)) && pkN(r.data, old(r.pos)) <= 0xffffffff

// a coder: flags, id, [stream counts], [properties]
rec cdIdLen(d bytes, p int) int = int(d[p] & 0x0f)
rec cd1(d bytes, p int) int = p + 1 + cdIdLen(d, p)
rec cdIn(d bytes, p int) int = (d[p] & 0x10) != 0 ? int(vint(d, cd1(d, p))) : 1
rec cdOut(d bytes, p int) int = (d[p] & 0x10) != 0 ? int(vint(d, vnext(d, cd1(d, p)))) : 1
rec cd2(d bytes, p int) int = (d[p] & 0x10) != 0 ? vnext(d, vnext(d, cd1(d, p))) : cd1(d, p)
rec cdPropLen(d bytes, p int) int = (d[p] & 0x20) != 0 ? int(vint(d, cd2(d, p))) : 0
rec cdNext(d bytes, p int) int = (d[p] & 0x20) != 0 ? vnext(d, cd2(d, p)) + cdPropLen(d, p) : cd2(d, p)
pure isCoderA(c, d bytes, p int) bool = c != nil
   && int(c.in) == cdIn(d, p) && int(c.out) == cdOut(d, p) && 0 < int(c.in) && 0 < int(c.out) && int(c.in) <= 0xffffffff && int(c.out) <= 0xffffffff
   && allocated(arr(c.id)) && allocated(arr(c.properties)) && len(c.id) == cdIdLen(d, p) && len(c.properties) == cdPropLen(d, p)
pure isCoderI(c, d bytes, p int) bool = forall j :: {c.id[j]} 0 <= j && j < len(c.id) ==> c.id[j] == d[p + 1 + j]
pure isCoderP(c, d bytes, p int) bool = forall j :: {c.properties[j]} 0 <= j && j < len(c.properties) ==> c.properties[j] == d[vnext(d, cd2(d, p)) + j]
pure isCoder(c, d bytes, p int) bool = isCoderA(c, d, p) && isCoderI(c, d, p) && isCoderP(c, d, p)

func sevenzip.readCoder(r) (c, err)
  props C02, C04
  requires stream(r)
  modifies r.pos
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (c != nil) && (c != nil ==> fresh(c))
  ensures [value] err == nil ==> isCoderA(c, r.data, old(r.pos)) && r.pos == cdNext(r.data, old(r.pos))
  ensures [C02.valueI] err == nil ==> isCoderI(c, r.data, old(r.pos))
  ensures [C02.valueP] err == nil ==> isCoderP(c, r.data, old(r.pos))
  ensures [fresh] err == nil ==> fresh(arr(c.id)) && (arr(c.properties) == 0 || fresh(arr(c.properties)))
  ensures [C02.complete] err == nil <==> old(r.pos) < r.end && cdNext(r.data, old(r.pos)) <= r.end
     && 0 < cdIn(r.data, old(r.pos)) && cdIn(r.data, old(r.pos)) <= 0xffffffff && 0 < cdOut(r.data, old(r.pos)) && cdOut(r.data, old(r.pos)) <= 0xffffffff
     && ((r.data[old(r.pos)] & 0x20) != 0 ==> 0 < cdPropLen(r.data, old(r.pos)) && cdPropLen(r.data, old(r.pos)) <= 0xffffffff)

// a folder: number of coders, coders, bind pairs, [packed stream indices]
rec fdN(d bytes, p int) int = int(vint(d, p))
rec fdC(d bytes, p int, k int) int = k <= 0 ? p : cdNext(d, fdC(d, p, k - 1))
rec fdIn(d bytes, p int, k int) int = k <= 0 ? 0 : fdIn(d, p, k - 1) + cdIn(d, fdC(d, p, k - 1))
rec fdOut(d bytes, p int, k int) int = k <= 0 ? 0 : fdOut(d, p, k - 1) + cdOut(d, fdC(d, p, k - 1))
rec fdIns(d bytes, p int) int = fdIn(d, vnext(d, p), fdN(d, p))
rec fdOuts(d bytes, p int) int = fdOut(d, vnext(d, p), fdN(d, p))
rec fdB(d bytes, p int) int = fdC(d, vnext(d, p), fdN(d, p))
rec fdP(d bytes, p int) int = spos(d, fdB(d, p), 2 * (fdOuts(d, p) - 1))
rec fdPacked(d bytes, p int) int = fdIns(d, p) - (fdOuts(d, p) - 1)
rec fdNext(d bytes, p int) int = fdPacked(d, p) == 1 ? fdP(d, p) : spos(d, fdP(d, p), fdPacked(d, p))
rec bpIn(d bytes, p int, k int) int = int(vint(d, spos(d, fdB(d, p), 2 * k)))
rec bpOut(d bytes, p int, k int) int = int(vint(d, spos(d, fdB(d, p), 2 * k + 1)))

pure goodBinds(f) bool = forall k :: {f.bindPair[k]} 0 <= k && k < len(f.bindPair) ==> f.bindPair[k] != nil && allocated(f.bindPair[k]) && int(f.bindPair[k].in) < int(f.in) && int(f.bindPair[k].out) < int(f.out)
pure goodCoders(f) bool = forall k :: {f.coder[k]} 0 <= k && k < len(f.coder) ==> f.coder[k] != nil && allocated(f.coder[k]) && 0 < int(f.coder[k].in) && int(f.coder[k].in) <= 0xffffffff && 0 < int(f.coder[k].out) && int(f.coder[k].out) <= 0xffffffff
pure goodPacked(f) bool = len(f.packed) == int(f.packedStreams) && (forall k :: {f.packed[k]} 0 <= k && k < len(f.packed) ==> int(f.packed[k]) < int(f.in))
pure isFolderC(f, d bytes, p int) bool = f != nil && allocated(arr(f.coder)) && len(f.coder) == fdN(d, p)
   && (forall k :: {f.coder[k]} 0 <= k && k < len(f.coder) ==> isCoderA(f.coder[k], d, fdC(d, vnext(d, p), k)))
pure isFolderCI(f, d bytes, p int) bool = forall k :: {f.coder[k]} 0 <= k && k < len(f.coder) ==> isCoderI(f.coder[k], d, fdC(d, vnext(d, p), k))
pure isFolderCP(f, d bytes, p int) bool = forall k :: {f.coder[k]} 0 <= k && k < len(f.coder) ==> isCoderP(f.coder[k], d, fdC(d, vnext(d, p), k))
pure isFolderI(f, d bytes, p int) bool = f != nil && int(f.in) == fdIns(d, p) && int(f.out) == fdOuts(d, p) && int(f.packedStreams) == fdPacked(d, p)
pure isFolderB(f, d bytes, p int) bool = f != nil && allocated(arr(f.bindPair))
   && len(f.bindPair) == fdOuts(d, p) - 1 && (forall k :: {f.bindPair[k]} 0 <= k && k < len(f.bindPair) ==> int(f.bindPair[k].in) == bpIn(d, p, k) && int(f.bindPair[k].out) == bpOut(d, p, k))
pure isFolderP(f, d bytes, p int) bool = f != nil && allocated(arr(f.packed)) && 0 <= arr(f.packed)
   && (fdPacked(d, p) != 1 ==> (forall k :: {f.packed[k]} 0 <= k && k < len(f.packed) ==> int(f.packed[k]) == int(vint(d, spos(d, fdP(d, p), k)))))
pure isFolder(f, d bytes, p int) bool = isFolderC(f, d, p) && isFolderCI(f, d, p) && isFolderCP(f, d, p) && isFolderI(f, d, p) && isFolderB(f, d, p) && isFolderP(f, d, p)

// the first bind pair of an input or output (-1 if there is none)
rec bindOf(v [ref]u64, bps [int]ref, o int, n int, i int) int = n <= 0 ? 0 - 1 : bindOf(v, bps, o, n - 1, i) >= 0 ? bindOf(v, bps, o, n - 1, i) : int(v[bps[o + n - 1]]) == i ? n - 1 : 0 - 1
lemma bindOf_mono(v [ref]u64, bps [int]ref, o int, j int, k int, i int)
  requires 0 <= j && j <= k && bindOf(v, bps, o, j, i) >= 0
  ensures bindOf(v, bps, o, k, i) == bindOf(v, bps, o, j, i) && bindOf(v, bps, o, j, i) < j
  induct k
pure bpOfIn(f, i int) int = bindOf(comp("sevenzip.bindPair", "in"), row(f.bindPair), off(f.bindPair), len(f.bindPair), i)
pure bpOfOut(f, i int) int = bindOf(comp("sevenzip.bindPair", "out"), row(f.bindPair), off(f.bindPair), len(f.bindPair), i)
pure boundOut(f, i int) bool = bpOfOut(f, i) >= 0
pure boundIn(f, i int) bool = bpOfIn(f, i) >= 0

func sevenzip.folder.findInBindPair(f, i) (bp)
  props C02, C07, C04
  requires f != nil && (forall k :: {f.bindPair[k]} 0 <= k && k < len(f.bindPair) ==> f.bindPair[k] != nil)
  loop 1
    invariant [none] bindOf(comp("sevenzip.bindPair", "in"), row(f.bindPair), off(f.bindPair), $i, int(i)) < 0
    use bindOf_mono(comp("sevenzip.bindPair", "in"), row(f.bindPair), off(f.bindPair), $i + 1, len(f.bindPair), int(i))
  ensures [found] bp != nil ==> boundIn(f, int(i)) && bpOfIn(f, int(i)) < len(f.bindPair) && bp == f.bindPair[bpOfIn(f, int(i))] && bp.in == i
  ensures [none] bp == nil ==> !boundIn(f, int(i))

func sevenzip.folder.findOutBindPair(f, i) (bp)
  props C02, C07, C04
  requires f != nil && (forall k :: {f.bindPair[k]} 0 <= k && k < len(f.bindPair) ==> f.bindPair[k] != nil)
  loop 1
    invariant [none] bindOf(comp("sevenzip.bindPair", "out"), row(f.bindPair), off(f.bindPair), $i, int(i)) < 0
    use bindOf_mono(comp("sevenzip.bindPair", "out"), row(f.bindPair), off(f.bindPair), $i + 1, len(f.bindPair), int(i))
  ensures [found] bp != nil ==> boundOut(f, int(i)) && bpOfOut(f, int(i)) < len(f.bindPair) && bp == f.bindPair[bpOfOut(f, int(i))] && bp.out == i
  ensures [none] bp == nil ==> !boundOut(f, int(i))

func sevenzip.readFolder(r) (f, err)
  hide vnext, cdNext, cd2, cd1, cdIdLen, cdPropLen
  props C02, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars f *folder
    invariant [f] f != nil && fresh(f) && $i <= int(coders) && len(f.coder) == $i && stream(r) && old(r.pos) <= r.pos
    invariant [coder] forall k :: {f.coder[k]} 0 <= k && k < $i ==> isCoderA(f.coder[k], r.data, fdC(r.data, vnext(r.data, old(r.pos)), k)) && fresh(f.coder[k]) && allocated(arr(f.coder[k].id)) && allocated(arr(f.coder[k].properties))
    invariant [C02.coderI] forall k :: {f.coder[k]} 0 <= k && k < $i ==> isCoderI(f.coder[k], r.data, fdC(r.data, vnext(r.data, old(r.pos)), k))
    invariant [C02.coderP] forall k :: {f.coder[k]} 0 <= k && k < $i ==> isCoderP(f.coder[k], r.data, fdC(r.data, vnext(r.data, old(r.pos)), k))
    invariant [pos] r.pos == fdC(r.data, vnext(r.data, old(r.pos)), $i)
    invariant [in] int(f.in) == fdIn(r.data, vnext(r.data, old(r.pos)), $i) && int(f.in) <= $i * 0xffffffff
    invariant [out] int(f.out) == fdOut(r.data, vnext(r.data, old(r.pos)), $i) && int(f.out) <= $i * 0xffffffff
  loop 2
    vars f *folder
    invariant [len] len(f.bindPair) == $i && $i <= int(f.out) - 1 && stream(r) && old(r.pos) <= r.pos
    invariant [pos] r.pos == spos(r.data, fdB(r.data, old(r.pos)), 2 * $i)
    invariant [value] forall k :: {f.bindPair[k]} 0 <= k && k < $i ==> f.bindPair[k] != nil && fresh(f.bindPair[k]) && int(f.bindPair[k].in) == bpIn(r.data, old(r.pos), k) && int(f.bindPair[k].out) == bpOut(r.data, old(r.pos), k) && int(f.bindPair[k].in) < int(f.in) && int(f.bindPair[k].out) < int(f.out)
  loop 3
    vars f *folder
    invariant [len] $i <= int(f.in) && 0 <= len(f.packed) && len(f.packed) <= $i && allocated(arr(f.packed)) && 0 <= arr(f.packed)
    invariant [val] forall k :: {f.packed[k]} 0 <= k && k < len(f.packed) ==> int(f.packed[k]) < $i && !boundIn(f, int(f.packed[k]))
  loop 4
    vars f *folder
    invariant [len] len(f.packed) == int(f.packedStreams) && $i <= int(f.packedStreams) && stream(r) && old(r.pos) <= r.pos
    invariant [pos] r.pos == spos(r.data, fdP(r.data, old(r.pos)), $i)
    invariant [val] forall k :: {f.packed[k]} 0 <= k && k < $i ==> int(f.packed[k]) == int(vint(r.data, spos(r.data, fdP(r.data, old(r.pos)), k))) && int(f.packed[k]) < int(f.in)
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (f != nil) && (f != nil ==> fresh(f))
  ensures [next] err == nil ==> r.pos == fdNext(r.data, old(r.pos))
  ensures [C02.valueC] err == nil ==> isFolderC(f, r.data, old(r.pos))
  ensures [C02.valueCI] err == nil ==> isFolderCI(f, r.data, old(r.pos))
  ensures [C02.valueCP] err == nil ==> isFolderCP(f, r.data, old(r.pos))
  ensures [C02.valueI] err == nil ==> isFolderI(f, r.data, old(r.pos))
  ensures [C02.valueB] err == nil ==> isFolderB(f, r.data, old(r.pos))
  ensures [C02.valueP] err == nil ==> isFolderP(f, r.data, old(r.pos))
  ensures [C02.single] err == nil && int(f.packedStreams) == 1 ==> len(f.packed) == 1 && !boundIn(f, int(f.packed[0]))
  ensures [range] err == nil ==> len(f.coder) <= 0xffffffff && len(f.bindPair) == int(f.out) - 1 && int(f.packedStreams) == int(f.in) - (int(f.out) - 1) && goodCoders(f) && goodBinds(f) && goodPacked(f) && int(f.in) <= 0xffffffff && int(f.out) <= 0xffffffff && 0 < int(f.out) && int(f.out) <= int(f.in)

// unpack information: folders, unpack sizes, [digests], end
rec upN(d bytes, p int) int = int(vint(d, p + 1))
rec upF(d bytes, p int, k int) int = k <= 0 ? vnext(d, p + 1) + 1 : fdNext(d, upF(d, p, k - 1))
rec upS(d bytes, p int, k int) int = k <= 0 ? upF(d, p, upN(d, p)) + 1 : spos(d, upS(d, p, k - 1), fdOuts(d, upF(d, p, k - 1)))
rec up2(d bytes, p int) int = upS(d, p, upN(d, p)) + 1
pure upHasCRC(d bytes, p int) bool = d[up2(d, p) - 1] == 0x0a
rec upNext(d bytes, p int) int = upHasCRC(d, p) ? crcNext(d, up2(d, p), upN(d, p)) + 1 : up2(d, p)

pure okFolder(f) bool = f != nil && len(f.coder) <= 0xffffffff && goodCoders(f) && goodBinds(f) && goodPacked(f) && 0 < int(f.out) && int(f.out) <= int(f.in) && int(f.in) <= 0xffffffff && len(f.bindPair) == int(f.out) - 1 && int(f.packedStreams) == int(f.in) - (int(f.out) - 1)
pure sizedFolder(f, d bytes, s int) bool = allocated(arr(f.size)) && len(f.size) == int(f.out) && (forall i :: {f.size[i]} 0 <= i && i < len(f.size) ==> f.size[i] == vint(d, spos(d, s, i)))

func sevenzip.readUnpackInfo(r) (u, err)
  props C02, C04
  hide vnext, fdNext, fdIns, fdB, fdP, fdPacked, bpIn, bpOut, fdN, cdNext, cd2, cd1, cdIn, cdOut, cdIdLen, cdPropLen
  requires stream(r)
  modifies r.pos
  loop 1
    vars u *unpackInfo
    invariant [u] u != nil && fresh(u) && $i <= int(folders) && len(u.folder) == $i && stream(r) && old(r.pos) <= r.pos
    invariant [pos] r.pos == upF(r.data, old(r.pos), $i)
    invariant [C02.folderC] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderC(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [C02.folderCI] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderCI(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [C02.folderCP] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderCP(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [C02.folderI] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderI(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [C02.folderB] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderB(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [C02.folderP] forall k :: {u.folder[k]} 0 <= k && k < $i ==> isFolderP(u.folder[k], r.data, upF(r.data, old(r.pos), k))
    invariant [okfolder] forall k :: {u.folder[k]} 0 <= k && k < $i ==> okFolder(u.folder[k])
    invariant [fresh] forall k :: {u.folder[k]} 0 <= k && k < $i ==> fresh(u.folder[k])
    invariant [distinct] forall j, k :: {u.folder[j], u.folder[k]} 0 <= j && j < k && k < $i ==> u.folder[j] != u.folder[k]
  loop 2
    vars u *unpackInfo
    invariant [pos] r.pos == upS(r.data, old(r.pos), $i) && stream(r) && old(r.pos) <= r.pos
    invariant [size] forall k :: {u.folder[k]} 0 <= k && k < $i ==> sizedFolder(u.folder[k], r.data, upS(r.data, old(r.pos), k))
  loop 3
    vars f *folder; total uint64
    invariant [total] int(total) == fdOut(r.data, vnext(r.data, upF(r.data, old(r.pos), $i2)), $i) && int(total) <= $i * 0xffffffff
  loop 4
    vars f *folder
    invariant [pos] r.pos == spos(r.data, upS(r.data, old(r.pos), $i2), $i) && stream(r) && old(r.pos) <= r.pos
    invariant [val] len(f.size) == int(f.out) && (forall i :: {f.size[i]} 0 <= i && i < $i ==> f.size[i] == vint(r.data, spos(r.data, upS(r.data, old(r.pos), $i2), i)))
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (u != nil) && (u != nil ==> fresh(u))
  ensures [count] err == nil ==> len(u.folder) == upN(r.data, old(r.pos)) && len(u.folder) <= 0xffffffff
  ensures [C02.folderC] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderC(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [C02.folderCI] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderCI(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [C02.folderCP] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderCP(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [C02.folderI] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderI(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [C02.folderB] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderB(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [C02.folderP] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> isFolderP(u.folder[k], r.data, upF(r.data, old(r.pos), k))
  ensures [okfolder] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> okFolder(u.folder[k])
  ensures [fresh] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> fresh(u.folder[k])
  ensures [size] err == nil ==> forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> sizedFolder(u.folder[k], r.data, upS(r.data, old(r.pos), k))
  ensures [C02.digest] err == nil ==> (upHasCRC(r.data, old(r.pos)) ? len(u.digest) == len(u.folder) && (forall k :: {u.digest[k]} 0 <= k && k < len(u.digest) ==> u.digest[k] == crcAt(r.data, up2(r.data, old(r.pos)), len(u.folder), k)) : u.digest == nil)
  ensures [end] err == nil ==> r.pos == upNext(r.data, old(r.pos)) && r.data[r.pos - 1] == 0 && r.data[old(r.pos)] == 0x0b && r.data[vnext(r.data, old(r.pos) + 1)] == 0 && r.data[upF(r.data, old(r.pos), len(u.folder))] == 0x0c

// the size of a folder's content: that of its last output that is not bound
rec lastFree(v [ref]u64, bps [int]ref, o int, nb int, n int) int = n <= 0 ? 0 - 1 : bindOf(v, bps, o, nb, n - 1) < 0 ? n - 1 : lastFree(v, bps, o, nb, n - 1)
pure freeOut(f, n int) int = lastFree(comp("sevenzip.bindPair", "out"), row(f.bindPair), off(f.bindPair), len(f.bindPair), n)
pure usize(f) u64 = len(f.size) == 0 ? u64(0) : freeOut(f, len(f.size)) >= 0 ? f.size[freeOut(f, len(f.size))] : f.size[len(f.size) - 1]
pure isUSize(f, v int) bool = v == int(usize(f))

func sevenzip.folder.unpackSize(f) (v)
  props C02, C07, C04
  requires f != nil && (forall k :: {f.bindPair[k]} 0 <= k && k < len(f.bindPair) ==> f.bindPair[k] != nil)
  loop 1
    vars i int
    invariant [i] -1 <= i && i < len(f.size)
    invariant [bound] freeOut(f, i + 1) == freeOut(f, len(f.size))
  ensures [value] v == usize(f)

// sums over the folders of a slice
rec psum(ps [ref]u64, fs [int]ref, o int, k int) int = k <= 0 ? 0 : psum(ps, fs, o, k - 1) + int(ps[fs[o + k - 1]])
lemma psum_mono(ps [ref]u64, fs [int]ref, o int, j int, k int)
  requires 0 <= j && j <= k
  ensures 0 <= psum(ps, fs, o, j) && psum(ps, fs, o, j) <= psum(ps, fs, o, k)
  induct k
rec usum(v [int]u64, o int, k int) int = k <= 0 ? 0 : usum(v, o, k - 1) + int(v[o + k - 1])
lemma usum_mono(v [int]u64, o int, j int, k int)
  requires 0 <= j && j <= k
  ensures 0 <= usum(v, o, j) && usum(v, o, j) <= usum(v, o, k)
  induct k

// number of packed streams of the first k folders, number of files of the first k folders
pure packs(fs, k int) int = psum(comp("sevenzip.folder", "packedStreams"), row(fs), off(fs), k)
pure nfiles(ss, k int) int = usum(row(ss), off(ss), k)

pure okSubs(s, n int) bool = len(s.streams) == n && n <= 0xffffffff && (forall i :: {s.streams[i]} 0 <= i && i < n ==> int(s.streams[i]) <= 0xffffffff)
   && nfiles(s.streams, n) <= 0xffffffff
   && (s.size == nil ? (forall i :: {s.streams[i]} 0 <= i && i < n ==> int(s.streams[i]) <= 1) : len(s.size) == nfiles(s.streams, n))
   && (len(s.digest) == 0 || len(s.digest) == nfiles(s.streams, n))

// substreams: [number of files per folder], [sizes], [digests], end
rec ssN(d bytes, p int, i int) int = d[p] == 0x0d ? int(vint(d, spos(d, p + 1, i))) : 1
rec ssCnt(d bytes, p int, k int) int = k <= 0 ? 0 : ssCnt(d, p, k - 1) + ssN(d, p, k - 1)
rec ssQ(d bytes, p int, nf int) int = d[p] == 0x0d ? spos(d, p + 1, nf) + 1 : p + 1
rec ssP(d bytes, p int, nf int, k int) int = k <= 0 ? ssQ(d, p, nf) : spos(d, ssP(d, p, nf, k - 1), max(0, ssN(d, p, k - 1) - 1))
rec vsum(d bytes, p int, k int) int = k <= 0 ? 0 : vsum(d, p, k - 1) + int(vint(d, spos(d, p, k - 1)))
pure ssHasSize(d bytes, p int, nf int) bool = d[ssQ(d, p, nf) - 1] == 0x09
rec ssQ2(d bytes, p int, nf int) int = ssHasSize(d, p, nf) ? ssP(d, p, nf, nf) + 1 : ssQ(d, p, nf)
pure ssHasCRC(d bytes, p int, nf int) bool = d[ssQ2(d, p, nf) - 1] == 0x0a
rec ssNext(d bytes, p int, nf int) int = ssHasCRC(d, p, nf) ? crcNext(d, ssQ2(d, p, nf), ssCnt(d, p, nf)) + 1 : ssQ2(d, p, nf)

lemma ssCnt_mono(d bytes, p int, j int, k int)
  requires 0 <= j && j <= k
  ensures 0 <= ssCnt(d, p, j) && ssCnt(d, p, j) <= ssCnt(d, p, k)
  induct k

lemma ssCnt_seg(d bytes, p int, a int, k int)
  requires 0 <= a && a < k
  ensures ssCnt(d, p, a + 1) == ssCnt(d, p, a) + ssN(d, p, a) && ssCnt(d, p, a + 1) <= ssCnt(d, p, k) && 0 <= ssCnt(d, p, a)
  use ssCnt_mono(d, p, a + 1, k)
  use ssCnt_mono(d, p, 0, a)

pure okFolders(fs) bool = len(fs) <= 0xffffffff && (forall k :: {fs[k]} 0 <= k && k < len(fs) ==> okFolder(fs[k]))

func sevenzip.readSubStreamsInfo(r, folder) (s, err)
  props C02, C04
  requires stream(r)
  requires okFolders(folder)
  modifies r.pos
  loop 1
    vars s *subStreamsInfo
    invariant [pos] r.pos == spos(r.data, old(r.pos) + 1, $i) && stream(r) && old(r.pos) <= r.pos
    invariant [val] len(s.streams) == len(folder) && $i <= len(folder) && (forall i :: {s.streams[i]} 0 <= i && i < $i ==> int(s.streams[i]) == ssN(r.data, old(r.pos), i) && int(s.streams[i]) <= 0xffffffff)
  loop 2
    vars s *subStreamsInfo
    invariant [val] len(s.streams) == len(folder) && $i <= len(folder) && (forall i :: {s.streams[i]} 0 <= i && i < $i ==> s.streams[i] == 1)
  loop 3
    vars files uint64; s *subStreamsInfo
    invariant [sum] int(files) == ssCnt(r.data, old(r.pos), $i) && int(files) <= $i * 0xffffffff
    use ssCnt_mono(r.data, old(r.pos), 0, $i)
    invariant [nf] int(files) == nfiles(s.streams, $i)
  loop 4
    vars s *subStreamsInfo; k int; files uint64
    use ssCnt_mono(r.data, old(r.pos), $i + 1, len(folder))
    use forall a :: {ssP(r.data, old(r.pos), len(folder), a)} 0 <= a && a < $i ==> ssCnt_seg(r.data, old(r.pos), a, $i)
    use ssCnt_mono(r.data, old(r.pos), 0, $i)
    invariant [k] k == ssCnt(r.data, old(r.pos), $i) && 0 <= k && len(s.size) == int(files) && $i <= len(folder) && len(s.streams) == len(folder)
    invariant [pos] r.pos == ssP(r.data, old(r.pos), len(folder), $i) && stream(r) && old(r.pos) <= r.pos
    invariant [size] forall a :: {ssP(r.data, old(r.pos), len(folder), a)} 0 <= a && a < $i ==> (forall j :: {s.size[ssCnt(r.data, old(r.pos), a) + j]} 0 <= j && j < ssN(r.data, old(r.pos), a) - 1 ==> s.size[ssCnt(r.data, old(r.pos), a) + j] == vint(r.data, spos(r.data, ssP(r.data, old(r.pos), len(folder), a), j)))
  loop 5
    vars s *subStreamsInfo; k int; files uint64; total uint64; unpackSize uint64; j uint64
    invariant [j] 1 <= j && int(j) <= ssN(r.data, old(r.pos), $i4) && k == ssCnt(r.data, old(r.pos), $i4) + int(j) - 1 && len(s.size) == int(files)
    invariant [total] int(total) == vsum(r.data, ssP(r.data, old(r.pos), len(folder), $i4), int(j) - 1) && total <= unpackSize
    invariant [pos] r.pos == spos(r.data, ssP(r.data, old(r.pos), len(folder), $i4), int(j) - 1) && stream(r) && old(r.pos) <= r.pos
    invariant [cur] forall a :: {s.size[ssCnt(r.data, old(r.pos), $i4) + a]} 0 <= a && a < int(j) - 1 ==> s.size[ssCnt(r.data, old(r.pos), $i4) + a] == vint(r.data, spos(r.data, ssP(r.data, old(r.pos), len(folder), $i4), a))
    use forall a :: {ssP(r.data, old(r.pos), len(folder), a)} 0 <= a && a < $i4 ==> ssCnt_seg(r.data, old(r.pos), a, $i4)
    invariant [size] forall a :: {ssP(r.data, old(r.pos), len(folder), a)} 0 <= a && a < $i4 ==> (forall j :: {s.size[ssCnt(r.data, old(r.pos), a) + j]} 0 <= j && j < ssN(r.data, old(r.pos), a) - 1 ==> s.size[ssCnt(r.data, old(r.pos), a) + j] == vint(r.data, spos(r.data, ssP(r.data, old(r.pos), len(folder), a), j)))
  loop 6
    invariant [one] forall i :: {s.streams[i]} 0 <= i && i < $i ==> int(s.streams[i]) <= 1
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (s != nil) && (s != nil ==> fresh(s))
  ensures [ok] err == nil ==> okSubs(s, len(folder))
  ensures [streams] err == nil ==> len(s.streams) == len(folder) && (forall i :: {s.streams[i]} 0 <= i && i < len(folder) ==> int(s.streams[i]) == ssN(r.data, old(r.pos), i))
  ensures [count] err == nil ==> ssCnt(r.data, old(r.pos), len(folder)) <= 0xffffffff
  ensures [nosize] err == nil && !ssHasSize(r.data, old(r.pos), len(folder)) ==> s.size == nil && (forall i :: {s.streams[i]} 0 <= i && i < len(folder) ==> int(s.streams[i]) <= 1)
  ensures [size] err == nil && ssHasSize(r.data, old(r.pos), len(folder)) ==> len(s.size) == ssCnt(r.data, old(r.pos), len(folder)) && (forall a :: {ssP(r.data, old(r.pos), len(folder), a)} 0 <= a && a < len(folder) ==> (forall j :: {s.size[ssCnt(r.data, old(r.pos), a) + j]} 0 <= j && j < ssN(r.data, old(r.pos), a) - 1 ==> s.size[ssCnt(r.data, old(r.pos), a) + j] == vint(r.data, spos(r.data, ssP(r.data, old(r.pos), len(folder), a), j))))
  ensures [C02.digest] err == nil ==> (ssHasCRC(r.data, old(r.pos), len(folder)) ? len(s.digest) == ssCnt(r.data, old(r.pos), len(folder)) && (forall k :: {s.digest[k]} 0 <= k && k < len(s.digest) ==> s.digest[k] == crcAt(r.data, ssQ2(r.data, old(r.pos), len(folder)), ssCnt(r.data, old(r.pos), len(folder)), k)) : s.digest == nil)
  ensures [end] err == nil ==> r.pos == ssNext(r.data, old(r.pos), len(folder)) && r.data[r.pos - 1] == 0

func sevenzip.streamsInfo.Folders(si) (n)
  props C02, C04
  ensures [value] n == (si == nil || si.unpackInfo == nil ? 0 : len(si.unpackInfo.folder))

func sevenzip.streamsInfo.files(si) (n)
  props C02, C03, C04
  requires si != nil && si.unpackInfo != nil ==> len(si.unpackInfo.folder) <= 0xffffffff && (si.subStreamsInfo != nil ==> okSubs(si.subStreamsInfo, len(si.unpackInfo.folder)))
  loop 1
    vars files uint64
    invariant [sum] int(files) == nfiles(si.subStreamsInfo.streams, $i) && int(files) <= $i * 0xffffffff
  ensures [value] int(n) == (si == nil || si.unpackInfo == nil ? 0 : si.subStreamsInfo == nil ? len(si.unpackInfo.folder) : nfiles(si.subStreamsInfo.streams, len(si.subStreamsInfo.streams)))

func sevenzip.streamsInfo.hasPackedStreams(si) (ok)
  props C02, C07, C04
  requires si != nil && si.unpackInfo != nil && okFolders(si.unpackInfo.folder)
  loop 1
    vars streams uint64
    invariant [sum] int(streams) == packs(si.unpackInfo.folder, $i) && int(streams) <= $i * 0xffffffff
  ensures [value] ok == (si.packInfo != nil && packs(si.unpackInfo.folder, len(si.unpackInfo.folder)) <= len(si.packInfo.size))

func sevenzip.streamsInfo.FileFolderAndSize(si, file) (fo, size, crc)
  props C02, C03, C04
  requires si != nil && si.unpackInfo != nil && okFolders(si.unpackInfo.folder) && 0 <= file
  requires si.subStreamsInfo == nil ? file < len(si.unpackInfo.folder) : okSubs(si.subStreamsInfo, len(si.unpackInfo.folder)) && file < nfiles(si.subStreamsInfo.streams, len(si.unpackInfo.folder))
  requires len(si.unpackInfo.digest) == 0 || len(si.unpackInfo.digest) == len(si.unpackInfo.folder)
  loop 1
    vars total uint64; folder int; streams uint64
    use usum_mono(row(si.subStreamsInfo.streams), off(si.subStreamsInfo.streams), $i, len(si.unpackInfo.folder))
    invariant [total] int(total) == nfiles(si.subStreamsInfo.streams, $i) && int(total) <= file && int(total) <= $i * 0xffffffff
  ensures [nosub] si.subStreamsInfo == nil ==> fo == file
  ensures [folder] 0 <= fo && fo < len(si.unpackInfo.folder) && (si.subStreamsInfo != nil ==> nfiles(si.subStreamsInfo.streams, fo) <= file && file < nfiles(si.subStreamsInfo.streams, fo) + int(si.subStreamsInfo.streams[fo]))
  ensures [size] si.subStreamsInfo == nil || si.subStreamsInfo.streams[fo] == 1 ? isUSize(si.unpackInfo.folder[fo], int(size)) : size == si.subStreamsInfo.size[file]
  ensures [crc] crc == ((si.subStreamsInfo == nil || si.subStreamsInfo.streams[fo] == 1) && len(si.unpackInfo.digest) > 0 ? si.unpackInfo.digest[fo] : si.subStreamsInfo != nil && len(si.subStreamsInfo.digest) > 0 ? si.subStreamsInfo.digest[file] : u32(0))

// all streams information: [pack information], [folders], [substreams], end
rec si1(d bytes, p int) int = d[p] == 0x06 ? pkNext(d, p + 1) : p
rec si2(d bytes, p int) int = d[si1(d, p)] == 0x07 ? upNext(d, si1(d, p) + 1) : si1(d, p)
rec si3(d bytes, p int) int = d[si2(d, p)] == 0x08 ? ssNext(d, si2(d, p) + 1, upN(d, si1(d, p) + 1)) : si2(d, p)

pure okUnpack(u) bool = okFolders(u.folder) && (u.digest == nil || len(u.digest) == len(u.folder)) && (forall k :: {u.folder[k]} 0 <= k && k < len(u.folder) ==> len(u.folder[k].size) == int(u.folder[k].out))
pure okSI(si) bool = (si.unpackInfo != nil ==> okUnpack(si.unpackInfo) && si.packInfo != nil && packs(si.unpackInfo.folder, len(si.unpackInfo.folder)) <= len(si.packInfo.size))
   && (si.subStreamsInfo != nil ==> si.unpackInfo != nil && okSubs(si.subStreamsInfo, len(si.unpackInfo.folder)))

func sevenzip.readStreamsInfo(r) (s, err)
  props C02, C04
  requires stream(r)
  modifies r.pos
  noinline sevenzip.streamsInfo.hasPackedStreams
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  ensures [nil] (err == nil) == (s != nil) && (s != nil ==> fresh(s))
  ensures [ok] err == nil ==> okSI(s)
  ensures [end] err == nil ==> r.pos == si3(r.data, old(r.pos)) + 1 && r.data[r.pos - 1] == 0
  ensures [present] err == nil ==> (s.packInfo != nil) == (r.data[old(r.pos)] == 0x06) && (s.unpackInfo != nil) == (r.data[si1(r.data, old(r.pos))] == 0x07) && (s.subStreamsInfo != nil) == (r.data[si2(r.data, old(r.pos))] == 0x08)
  ensures [pack] err == nil && s.packInfo != nil ==> s.packInfo.position == vint(r.data, old(r.pos) + 1) && (pkHasSize(r.data, old(r.pos) + 1) ==> forall k :: {s.packInfo.size[k]} 0 <= k && k < len(s.packInfo.size) ==> s.packInfo.size[k] == vint(r.data, spos(r.data, pk2(r.data, old(r.pos) + 1), k)))
  ensures [folder] err == nil && s.unpackInfo != nil ==> len(s.unpackInfo.folder) == upN(r.data, si1(r.data, old(r.pos)) + 1) && (forall k :: {s.unpackInfo.folder[k]} 0 <= k && k < len(s.unpackInfo.folder) ==> isFolder(s.unpackInfo.folder[k], r.data, upF(r.data, si1(r.data, old(r.pos)) + 1, k)) && sizedFolder(s.unpackInfo.folder[k], r.data, upS(r.data, si1(r.data, old(r.pos)) + 1, k)))
  ensures [subs] err == nil && s.subStreamsInfo != nil ==> forall i :: {s.subStreamsInfo.streams[i]} 0 <= i && i < len(s.subStreamsInfo.streams) ==> int(s.subStreamsInfo.streams[i]) == ssN(r.data, si2(r.data, old(r.pos)) + 1, i)
