// bytes.Buffer: the unread bytes are [boff, boff+blen) of the byte array
// barr, whose slice starts at bbase and has capacity bcap.
opaque bytes.Buffer
ghost barr ref
ghost bbase int
ghost bcap int
ghost boff int
ghost blen int
zero bytes.Buffer :: self.barr == 0 && self.bbase == 0 && self.boff == 0 && self.blen == 0 && self.bcap == 0
pure bufOK(b) bool = 0 <= b.bbase && b.bbase <= b.boff && 0 <= b.blen && b.boff + b.blen <= b.bbase + b.bcap && b.bcap <= 0x7fffffffffffffff && (b.bcap > 0 ==> b.barr > 0) && allocated(b.barr)

extern bytes.NewBuffer(p) (b)
  ensures b != nil && fresh(b) && b.barr == arr(p) && b.bbase == off(p) && b.boff == off(p) && b.blen == len(p) && b.bcap == cap(p) && bufOK(b)
extern bytes.Buffer.Len(b) (n)
  requires b != nil
  ensures n == b.blen
extern bytes.Buffer.Cap(b) (n)
  requires b != nil
  ensures n == b.bcap
extern bytes.Buffer.Bytes(b) (r)
  requires b != nil
  ensures arr(r) == b.barr && off(r) == b.boff && len(r) == b.blen && cap(r) >= len(r) && cap(r) == b.bbase + b.bcap - b.boff
extern bytes.Buffer.Grow(b, n)
  requires b != nil && bufOK(b) && n >= 0
  modifies mem8(b.barr), b.barr, b.bbase, b.bcap, b.boff
  ensures bufOK(b) && (b.barr == old(b.barr) || fresh(b.barr)) && b.bcap - (b.boff - b.bbase) >= b.blen + n
  ensures forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + b.blen ==> mem8(b.barr)[k] == old(mem8(b.barr))[old(b.boff) + k - b.boff]
// appending in place, sliding down or moving to a new array
extern bytes.Buffer.Write(b, p) (n, err)
  requires b != nil && bufOK(b)
  requires b.barr == 0 || arr(p) != b.barr
  modifies mem8(b.barr), b.barr, b.bbase, b.bcap, b.boff, b.blen
  ensures n == len(p) && err == nil && bufOK(b) && b.blen == old(b.blen) + len(p) && (b.barr == old(b.barr) || fresh(b.barr))
  ensures let o = old(b.barr) :: b.barr != o ==> mem8(o) == old(mem8(o))
  ensures old(b.blen) + len(p) > old(b.bcap) ==> fresh(b.barr)
  ensures forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + old(b.blen) ==> mem8(b.barr)[k] == old(mem8(b.barr))[old(b.boff) + k - b.boff]
  ensures forall k :: {mem8(b.barr)[k]} b.boff + old(b.blen) <= k && k < b.boff + b.blen ==> mem8(b.barr)[k] == row(p)[off(p) + k - b.boff - old(b.blen)]
extern bytes.Buffer.WriteByte(b, c) (err)
  requires b != nil && bufOK(b)
  modifies mem8(b.barr), b.barr, b.bbase, b.bcap, b.boff, b.blen
  ensures err == nil && bufOK(b) && b.blen == old(b.blen) + 1 && (b.barr == old(b.barr) || fresh(b.barr))
  ensures let o = old(b.barr) :: b.barr != o ==> mem8(o) == old(mem8(o))
  ensures forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + old(b.blen) ==> mem8(b.barr)[k] == old(mem8(b.barr))[old(b.boff) + k - b.boff]
  ensures mem8(b.barr)[b.boff + old(b.blen)] == c
extern bytes.Buffer.Read(b, p) (n, err)
  requires b != nil && bufOK(b)
  requires b.barr == 0 || arr(p) != b.barr
  modifies b.boff, b.blen, elems(p)
  ensures bufOK(b) && n == min(len(p), old(b.blen)) && b.blen == old(b.blen) - n && (old(b.blen) > 0 ==> b.boff == old(b.boff) + n)
  ensures err == nil <==> n > 0 || len(p) == 0
  ensures err != nil ==> errIs(err, io.EOF)
  ensures forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n ==> row(p)[k] == mem8(b.barr)[old(b.boff) + k - off(p)]
  ensures forall k :: {row(p)[k]} k < off(p) || k >= off(p) + len(p) ==> row(p)[k] == old(row(p))[k]
extern bytes.Buffer.ReadByte(b) (c, err)
  requires b != nil && bufOK(b)
  modifies b.boff, b.blen
  ensures bufOK(b) && (old(b.blen) == 0 ==> err != nil && errIs(err, io.EOF) && b.blen == 0)
  ensures old(b.blen) > 0 ==> err == nil && c == mem8(b.barr)[old(b.boff)] && b.boff == old(b.boff) + 1 && b.blen == old(b.blen) - 1
extern bytes.Clone(p) (r)
  ensures len(r) == len(p) && cap(r) >= len(r) && (p != nil ==> fresh(arr(r))) && (p == nil ==> r == nil)
  ensures forall k :: {r[k]} 0 <= k && k < len(p) ==> r[k] == p[k]

// copying from a reader into a buffer
extern io.CopyN@bytes.Buffer(dst, r, n) (w, err)
  requires stream(r) && dst != nil && (let b = dyn(dst, "*bytes.Buffer") :: b != nil && bufOK(b))
  modifies r.pos, mem8(dyn(dst, "*bytes.Buffer").barr), dyn(dst, "*bytes.Buffer").barr, dyn(dst, "*bytes.Buffer").bbase, dyn(dst, "*bytes.Buffer").bcap, dyn(dst, "*bytes.Buffer").boff, dyn(dst, "*bytes.Buffer").blen
  ensures 0 <= w && r.pos == old(r.pos) + int(w) && r.pos <= r.end && int(w) <= max(0, int(n)) && (err == nil <==> int(w) == max(0, int(n)))
  ensures err != nil ==> r.pos == r.end && (errIs(err, io.EOF) <==> r.clean)
  ensures let b = dyn(dst, "*bytes.Buffer") :: bufOK(b) && b.blen == old(b.blen) + int(w) && (b.barr == old(b.barr) || fresh(b.barr))
  ensures let b = dyn(dst, "*bytes.Buffer") :: forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + old(b.blen) ==> mem8(b.barr)[k] == old(mem8(b.barr))[old(b.boff) + k - b.boff]
  ensures let b = dyn(dst, "*bytes.Buffer") :: forall k :: {mem8(b.barr)[k]} b.boff + old(b.blen) <= k && k < b.boff + b.blen ==> mem8(b.barr)[k] == r.data[old(r.pos) + k - b.boff - old(b.blen)]
