// C01: the integer, bit-vector and digest encodings of the 7z header.

// length of the variable-length integer introduced by byte b
pure vlen(b byte) int = b < 0x80 ? 1 : b < 0xc0 ? 2 : b < 0xe0 ? 3 : b < 0xf0 ? 4 : b < 0xf8 ? 5 : b < 0xfc ? 6 : b < 0xfe ? 7 : b < 0xff ? 8 : 9

purebv vb(d bytes, p int, i int) u64 = u64(d[p + 1 + i]) << u64(8 * i)
purebv vint(d bytes, p int) u64 =
    d[p] < 0x80 ? u64(d[p])
  : d[p] < 0xc0 ? (u64(d[p] & 0x3f) << 8) | vb(d, p, 0)
  : d[p] < 0xe0 ? (u64(d[p] & 0x1f) << 16) | vb(d, p, 0) | vb(d, p, 1)
  : d[p] < 0xf0 ? (u64(d[p] & 0x0f) << 24) | vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2)
  : d[p] < 0xf8 ? (u64(d[p] & 0x07) << 32) | vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2) | vb(d, p, 3)
  : d[p] < 0xfc ? (u64(d[p] & 0x03) << 40) | vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2) | vb(d, p, 3) | vb(d, p, 4)
  : d[p] < 0xfe ? (u64(d[p] & 0x01) << 48) | vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2) | vb(d, p, 3) | vb(d, p, 4) | vb(d, p, 5)
  : d[p] < 0xff ? vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2) | vb(d, p, 3) | vb(d, p, 4) | vb(d, p, 5) | vb(d, p, 6)
  : vb(d, p, 0) | vb(d, p, 1) | vb(d, p, 2) | vb(d, p, 3) | vb(d, p, 4) | vb(d, p, 5) | vb(d, p, 6) | vb(d, p, 7)

// position after the variable-length integer at p
rec vnext(d bytes, p int) int = p + vlen(d[p])

func sevenzip.readUint64(r) (v, err)
  mode bv
  props C01, C04
  requires stream(r)
  modifies r.pos
  ensures [value] err == nil ==> v == vint(r.data, old(r.pos)) && r.pos == vnext(r.data, old(r.pos))
  ensures [complete] err == nil <==> old(r.pos) < r.end && vnext(r.data, old(r.pos)) <= r.end
  ensures [err] err != nil ==> v == 0
  ensures [stream] stream(r) && old(r.pos) <= r.pos
  loop 1
  unroll 9

func sevenzip.readUint64Bounded(r, nonZero) (v, err)
  props C01, C04
  requires stream(r)
  modifies r.pos
  ensures [value] err == nil ==> v == vint(r.data, old(r.pos)) && r.pos == vnext(r.data, old(r.pos)) && int(v) <= 0xffffffff && (nonZero ==> v != 0)
  ensures [complete] err == nil <==> old(r.pos) < r.end && vnext(r.data, old(r.pos)) <= r.end && int(vint(r.data, old(r.pos))) <= 0xffffffff && (nonZero ==> vint(r.data, old(r.pos)) != 0)
  ensures [err] err != nil ==> v == 0
  ensures [stream] stream(r) && old(r.pos) <= r.pos

func sevenzip.checkUint64(v, nonZero) (err)
  props C01, C04
  ensures [iff] err == nil <==> int(v) <= 0xffffffff && (nonZero ==> v != 0)

// bit k of the bit vector starting at p: most significant bit first
purebv bitAt(d bytes, p int, k int) bool = (d[p + (k >> 3)] & (u8(0x80) >> u8(k & 7))) != 0

func sevenzip.readBool(r, count) (bs, err)
  mode bv
  props C01, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars defined []bool; mask byte
    invariant [len] len(defined) == $i && 0 <= $i && $i <= 0xffffffff && $i <= int(count)
    invariant [bits] forall k :: {defined[k]} 0 <= k && k < $i ==> defined[k] == bitAt(r.data, old(r.pos), k)
    invariant [pos] r.pos == old(r.pos) + (($i + 7) >> 3) && stream(r)
    invariant [mask] mask == ((($i & 7) == 0) ? u8(0) : u8(0x80) >> u8($i & 7))
    invariant [cur] ($i & 7) != 0 ==> b == r.data[old(r.pos) + ($i >> 3)]
  ensures [len] err == nil ==> len(bs) == int(count) && bs != nil
  ensures [value] err == nil ==> forall k :: {bs[k]} 0 <= k && k < int(count) ==> bs[k] == bitAt(r.data, old(r.pos), k)
  ensures [pos] err == nil ==> r.pos == old(r.pos) + ((int(count) + 7) >> 3)
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && old(r.pos) + ((int(count) + 7) >> 3) <= r.end
  ensures [stream] stream(r) && old(r.pos) <= r.pos

// optional bit vector: 0x00 followed by a bit vector, otherwise all true
pure obAt(d bytes, p int, k int) bool = d[p] != 0 || bitAt(d, p + 1, k)
pure obNext(d bytes, p int, n int) int = d[p] != 0 ? p + 1 : p + 1 + ((n + 7) >> 3)

func sevenzip.readOptionalBool(r, count) (bs, err)
  props C01, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars defined []bool
    invariant [len] len(defined) == int(count) && $i <= int(count)
    invariant [ones] forall k :: {defined[k]} 0 <= k && k < $i ==> defined[k]
  ensures [len] err == nil ==> len(bs) == int(count) && bs != nil
  ensures [value] err == nil ==> forall k :: {bs[k]} 0 <= k && k < int(count) ==> bs[k] == obAt(r.data, old(r.pos), k)
  ensures [pos] err == nil ==> r.pos == obNext(r.data, old(r.pos), int(count))
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && old(r.pos) < r.end && obNext(r.data, old(r.pos), int(count)) <= r.end
  ensures [stream] stream(r) && old(r.pos) <= r.pos

// position after k consecutive variable-length integers
rec spos(d bytes, p int, k int) int = k <= 0 ? p : vnext(d, spos(d, p, k - 1))

lemma spos_mono(d bytes, p int, j int, k int)
  requires 0 <= j && j <= k
  ensures spos(d, p, j) + (k - j) <= spos(d, p, k)
  induct k

func sevenzip.readSizes(r, count) (sizes, err)
  props C01, C04
  requires stream(r)
  modifies r.pos
  loop 1
    vars sizes []uint64
    invariant [len] len(sizes) == $i && $i <= int(count)
    invariant [value] forall k :: {sizes[k]} 0 <= k && k < $i ==> sizes[k] == vint(r.data, spos(r.data, old(r.pos), k))
    invariant [pos] r.pos == spos(r.data, old(r.pos), $i) && stream(r) && old(r.pos) <= r.pos
    use spos_mono(r.data, old(r.pos), $i + 1, int(count))
  ensures [len] err == nil ==> len(sizes) == int(count) && sizes != nil
  ensures [value] err == nil ==> forall k :: {sizes[k]} 0 <= k && k < int(count) ==> sizes[k] == vint(r.data, spos(r.data, old(r.pos), k))
  ensures [pos] err == nil ==> r.pos == spos(r.data, old(r.pos), int(count))
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && spos(r.data, old(r.pos), int(count)) <= r.end
  ensures [stream] stream(r) && old(r.pos) <= r.pos


// number of defined entries among the first k of an optional bit vector
rec ocnt(d bytes, p int, k int) int = k <= 0 ? 0 : ocnt(d, p, k - 1) + (obAt(d, p, k - 1) ? 1 : 0)

lemma ocnt_mono(d bytes, p int, j int, k int)
  requires 0 <= j && j <= k
  ensures ocnt(d, p, j) <= ocnt(d, p, k) && 0 <= ocnt(d, p, j) && ocnt(d, p, k) <= k
  induct k

func sevenzip.readCRC(r, count) (crcs, err)
  props C01, C04
  requires stream(r)
  modifies r.pos
  use ocnt_mono(r.data, old(r.pos), 0, int(count))
  loop 1
    vars defined []bool; crcs []uint32
    invariant [len] len(crcs) == int(count) && $i <= int(count) && len(defined) == int(count)
    invariant [bits] forall k :: {defined[k]} 0 <= k && k < int(count) ==> defined[k] == obAt(r.data, old(r.pos), k)
    invariant [value] forall k :: {crcs[k]} 0 <= k && k < $i ==> crcs[k] == (obAt(r.data, old(r.pos), k) ? le32(r.data, obNext(r.data, old(r.pos), int(count)) + 4 * ocnt(r.data, old(r.pos), k)) : u32(0))
    invariant [zero] forall k :: {crcs[k]} $i <= k && k < int(count) ==> crcs[k] == 0
    invariant [pos] r.pos == obNext(r.data, old(r.pos), int(count)) + 4 * ocnt(r.data, old(r.pos), $i) && stream(r) && old(r.pos) <= r.pos
    use ocnt_mono(r.data, old(r.pos), $i + 1, int(count))
  ensures [len] err == nil ==> len(crcs) == int(count) && crcs != nil
  ensures [value] err == nil ==> forall k :: {crcs[k]} 0 <= k && k < int(count) ==> crcs[k] == (obAt(r.data, old(r.pos), k) ? le32(r.data, obNext(r.data, old(r.pos), int(count)) + 4 * ocnt(r.data, old(r.pos), k)) : u32(0))
  ensures [pos] err == nil ==> r.pos == obNext(r.data, old(r.pos), int(count)) + 4 * ocnt(r.data, old(r.pos), int(count))
  ensures [complete] err == nil <==> count != 0 && int(count) <= 0xffffffff && old(r.pos) < r.end && obNext(r.data, old(r.pos), int(count)) + 4 * ocnt(r.data, old(r.pos), int(count)) <= r.end
  ensures [stream] stream(r) && old(r.pos) <= r.pos
