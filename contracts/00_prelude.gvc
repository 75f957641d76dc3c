// Stream model: every reader object has the byte sequence it will deliver
// (data), the current position (pos) and the position at which it fails or
// ends (end); clean tells whether it ends with io.EOF or fails. Errors at
// end are sticky.
ghost data bytes
ghost pos int
ghost end int
ghost clean bool

pure stream(r) bool = r != nil && 0 <= r.pos && r.pos <= r.end && r.end <= 0x100000000000000

extern io.ByteReader.ReadByte(r) (b, err)
  requires stream(r)
  modifies r.pos
  ensures old(r.pos) < r.end ==> err == nil && b == r.data[old(r.pos)] && r.pos == old(r.pos) + 1
  ensures old(r.pos) >= r.end ==> err != nil && b == 0 && r.pos == old(r.pos) && (errIs(err, io.EOF) <==> r.clean)

extern io.Reader.Read(r, p) (n, err)
  requires stream(r)
  modifies r.pos, elems(p)
  ensures 0 <= n && n <= len(p) && r.pos == old(r.pos) + n && r.pos <= r.end
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.data[old(r.pos) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean)
  ensures old(r.pos) == r.end && len(p) > 0 ==> err != nil

extern io.ReadFull(r, p) (n, err)
  requires stream(r)
  modifies r.pos, elems(p)
  ensures 0 <= n && n <= len(p) && r.pos == old(r.pos) + n && r.pos <= r.end
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == r.data[old(r.pos) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
  ensures err == nil <==> n == len(p)
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean && n == 0) && (r.clean && n > 0 ==> errIs(err, io.ErrUnexpectedEOF))

extern io.CopyN(dst, r, n) (w, err)
  requires stream(r)
  requires dst == io.Discard
  modifies r.pos
  ensures 0 <= w && r.pos == old(r.pos) + int(w) && r.pos <= r.end && int(w) <= max(0, int(n))
  ensures err == nil ==> int(w) == max(0, int(n))
  ensures err != nil ==> r.pos == r.end

// fixed-width little-endian integers (definition used in bit-vector mode;
// an uninterpreted function of the bytes elsewhere)
purebv le16(d bytes, p int) u16 = u16(d[p]) | (u16(d[p + 1]) << 8)
purebv le32(d bytes, p int) u32 = u32(d[p]) | (u32(d[p + 1]) << 8) | (u32(d[p + 2]) << 16) | (u32(d[p + 3]) << 24)
purebv le64(d bytes, p int) u64 = u64(d[p]) | (u64(d[p + 1]) << 8) | (u64(d[p + 2]) << 16) | (u64(d[p + 3]) << 24) | (u64(d[p + 4]) << 32) | (u64(d[p + 5]) << 40) | (u64(d[p + 6]) << 48) | (u64(d[p + 7]) << 56)
purebv be32(d bytes, p int) u32 = u32(d[p + 3]) | (u32(d[p + 2]) << 8) | (u32(d[p + 1]) << 16) | (u32(d[p]) << 24)
