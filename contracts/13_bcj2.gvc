// C13: BCJ2. The reference decoder is a transition system over the range
// coder (range, code), 258 probabilities, the previous byte and the number of
// bytes written; one call of read performs its steps up to and including the
// next call or jump opcode (or until the buffer is full).
pure bjOp(pv, b) bool = b == 0xe8 || b == 0xe9 || pv == 0x0f && 0x80 <= b && b <= 0x8f
pure bjIdx(pv, b) int = b == 0xe8 ? int(pv) : b == 0xe9 ? 256 : 257
pure bjBound(rc, i) u64 = (rc.nrange >> 11) * rc.sd[i]
// normalisation: r, c are range and code before it, n the next range-coder byte (0 at the end)
purebv bjRange(r u64) u64 = r < 0x1000000 ? r << 8 : r
purebv bjCode(r u64, c u64, n u8) u64 = r < 0x1000000 ? (c << 8) | u64(n) : c
pure bjNext(rc) u8 = rc.rd.pos < rc.rd.end ? rc.rd.data[rc.rd.pos] : u8(0)
pure bjOK(rc) bool = rc != nil && rc.main != nil && rc.call != nil && rc.jump != nil && rc.rd != nil && rc.buf != nil && bufOK(rc.buf) && stream(rc.main) && stream(rc.call) && stream(rc.jump) && stream(rc.rd)
pure bjSep(rc) bool = ref(rc.main) != ref(rc.call) && ref(rc.main) != ref(rc.jump) && ref(rc.main) != ref(rc.rd) && ref(rc.call) != ref(rc.jump) && ref(rc.call) != ref(rc.rd) && ref(rc.jump) != ref(rc.rd)

func bcj2.readCloser.update(rc) (err)
  mode bv
  props C13, C04
  requires rc != nil && rc.rd != nil && stream(rc.rd)
  modifies rc.rd.pos, rc.code, rc.nrange
  ensures [range] err == nil ==> rc.nrange == bjRange(old(rc.nrange))
  ensures [code] err == nil ==> rc.code == bjCode(old(rc.nrange), old(rc.code), old(bjNext(rc)))
  ensures [pos] stream(rc.rd) && rc.rd.pos == (old(rc.nrange) < 0x1000000 && old(rc.rd.pos) < rc.rd.end ? old(rc.rd.pos) + 1 : old(rc.rd.pos))
  ensures [fail] err != nil ==> !errIs(err, io.EOF) && rc.rd.pos == rc.rd.end && !rc.rd.clean

func bcj2.readCloser.decode(rc, i) (bit, err)
  props C13, C04
  requires rc != nil && rc.rd != nil && stream(rc.rd) && 0 <= i && i < 258
  modifies rc.rd.pos, rc.code, rc.nrange, rc.sd
  ensures [bit] err == nil ==> (bit <==> old(rc.code) >= old(bjBound(rc, i)))
  ensures [prob] err == nil ==> rc.sd[i] == (bit ? old(rc.sd[i]) - (old(rc.sd[i]) >> 5) : old(rc.sd[i]) + ((2048 - old(rc.sd[i])) >> 5))
  ensures [other] forall x :: {rc.sd[x]} 0 <= x && x < 258 && x != i ==> rc.sd[x] == old(rc.sd[x])
  ensures [range] err == nil ==> rc.nrange == bjRange(bit ? old(rc.nrange) - old(bjBound(rc, i)) : old(bjBound(rc, i)))
  ensures [code] err == nil ==> rc.code == (bit ? bjCode(old(rc.nrange) - old(bjBound(rc, i)), old(rc.code) - old(bjBound(rc, i)), old(bjNext(rc))) : bjCode(old(bjBound(rc, i)), old(rc.code), old(bjNext(rc))))
  ensures [stream] stream(rc.rd) && old(rc.rd.pos) <= rc.rd.pos
  ensures [fail] err != nil ==> !errIs(err, io.EOF)

// the byte before position k of the main stream, for a call starting at p with pv before it
pure bjPrev(d bytes, p int, pv u8, k int) u8 = k == p ? pv : d[k - 1]

func bcj2.readCloser.read(rc) (err)
  props C13, C04
  requires bjOK(rc) && bjSep(rc)
  modifies rc.main.pos, rc.call.pos, rc.jump.pos, rc.rd.pos, rc.code, rc.nrange, rc.sd, rc.previous, rc.written, mem8(rc.buf.barr), rc.buf.barr, rc.buf.bbase, rc.buf.bcap, rc.buf.boff, rc.buf.blen
  loop 1
    invariant [ok] bjOK(rc) && old(rc.main.pos) <= rc.main.pos && (rc.buf.barr == old(rc.buf.barr) || fresh(rc.buf.barr))
    invariant [len] rc.buf.blen == old(rc.buf.blen) + rc.main.pos - old(rc.main.pos)
    invariant [prev] rc.previous == bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos)
    invariant [written] rc.written == u32(int(old(rc.written)) + rc.main.pos - old(rc.main.pos))
    invariant [kept] forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff <= k && k < rc.buf.boff + old(rc.buf.blen) ==> mem8(rc.buf.barr)[k] == old(mem8(rc.buf.barr))[old(rc.buf.boff) + k - rc.buf.boff]
    invariant [copy] forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff + old(rc.buf.blen) <= k && k < rc.buf.boff + rc.buf.blen ==> mem8(rc.buf.barr)[k] == rc.main.data[old(rc.main.pos) + k - rc.buf.boff - old(rc.buf.blen)]
    invariant [noop] forall k :: {rc.main.data[k]} old(rc.main.pos) <= k && k < rc.main.pos ==> !bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), k), rc.main.data[k])
    decreases rc.main.end - rc.main.pos
  ensures [ok] bjOK(rc) && (rc.buf.barr == old(rc.buf.barr) || fresh(rc.buf.barr)) && old(rc.main.pos) <= rc.main.pos && (err == nil ==> old(rc.main.pos) < rc.main.pos)
  ensures [kept] forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff <= k && k < rc.buf.boff + old(rc.buf.blen) ==> mem8(rc.buf.barr)[k] == old(mem8(rc.buf.barr))[old(rc.buf.boff) + k - rc.buf.boff]
  ensures [copy] forall k :: {mem8(rc.buf.barr)[k]} rc.buf.boff + old(rc.buf.blen) <= k && k < rc.buf.boff + old(rc.buf.blen) + rc.main.pos - old(rc.main.pos) ==> mem8(rc.buf.barr)[k] == rc.main.data[old(rc.main.pos) + k - rc.buf.boff - old(rc.buf.blen)]
  ensures [first] forall k :: {rc.main.data[k]} old(rc.main.pos) <= k && k < rc.main.pos - 1 ==> !bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), k), rc.main.data[k])
  ensures [eof] errIs(err, io.EOF) ==> rc.main.pos == rc.main.end && rc.main.clean && rc.buf.blen == old(rc.buf.blen) + rc.main.pos - old(rc.main.pos)
  ensures [plain] err == nil && !bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    rc.previous == rc.main.data[rc.main.pos - 1] && rc.buf.blen == old(rc.buf.blen) + rc.main.pos - old(rc.main.pos) && unchanged(rc.code, rc.nrange, rc.rd.pos, rc.call.pos, rc.jump.pos)
  ensures [prob] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      rc.sd[i] == (bit ? old(rc.sd)[i] - (old(rc.sd)[i] >> 5) : old(rc.sd)[i] + ((2048 - old(rc.sd)[i]) >> 5)))
  ensures [range] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      let bound = (old(rc.nrange) >> 11) * old(rc.sd)[i] :: rc.nrange == bjRange(bit ? old(rc.nrange) - bound : bound))
  ensures [code] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      let bound = (old(rc.nrange) >> 11) * old(rc.sd)[i] :: rc.code == bjCode(bit ? old(rc.nrange) - bound : bound, bit ? old(rc.code) - bound : old(rc.code), old(bjNext(rc))))
  ensures [out] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      rc.buf.blen == old(rc.buf.blen) + rc.main.pos - old(rc.main.pos) + (bit ? 4 : 0))
  ensures [in] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      rc.call.pos == old(rc.call.pos) + (bit && b == 0xe8 ? 4 : 0) && rc.jump.pos == old(rc.jump.pos) + (bit && b != 0xe8 ? 4 : 0))
  ensures [written] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      rc.written == u32(int(old(rc.written)) + rc.main.pos - old(rc.main.pos) + (bit ? 4 : 0)))
  ensures [dest] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      bit ==> let v = (b == 0xe8 ? be32(rc.call.data, old(rc.call.pos)) : be32(rc.jump.data, old(rc.jump.pos))) - rc.written :: let e = rc.buf.boff + rc.buf.blen - 4 :: let m = mem8(rc.buf.barr) :: m[e] == u8(v) && m[e + 1] == u8(v >> 8) && m[e + 2] == u8(v >> 16) && m[e + 3] == u8(v >> 24) && rc.previous == u8(v >> 24))
  ensures [prev] err == nil && bjOp(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), rc.main.data[rc.main.pos - 1]) ==>
    (let b = rc.main.data[rc.main.pos - 1] :: let i = bjIdx(bjPrev(rc.main.data, old(rc.main.pos), old(rc.previous), rc.main.pos - 1), b) :: let bit = old(rc.code) >= (old(rc.nrange) >> 11) * old(rc.sd)[i] ::
      !bit ==> rc.previous == b)
  ensures [short] err == nil ==> rc.call.pos <= rc.call.end && rc.jump.pos <= rc.jump.end

func bcj2.readCloser.Read(rc, p) (n, err)
  props C13, C08, C04
  requires rc != nil && rc.buf != nil && (rc.main != nil && rc.call != nil && rc.jump != nil && rc.rd != nil ==> bjOK(rc) && bjSep(rc))
  requires arr(p) >= 0 && (rc.buf.barr == 0 || arr(p) != rc.buf.barr)
  modifies rc.main.pos, rc.call.pos, rc.jump.pos, rc.rd.pos, rc.code, rc.nrange, rc.sd, rc.previous, rc.written, mem8(rc.buf.barr), rc.buf.barr, rc.buf.bbase, rc.buf.bcap, rc.buf.boff, rc.buf.blen, elems(p)
  ensures [closed] rc.main == nil || rc.call == nil || rc.jump == nil || rc.rd == nil ==> n == 0 && err != nil && !errIs(err, io.EOF)
  ensures [count] 0 <= n && n <= len(p)
  ensures [ok] old(rc.main) != nil && old(rc.call) != nil && old(rc.jump) != nil && old(rc.rd) != nil ==> bjOK(rc)
  ensures [data] old(rc.main) != nil && old(rc.call) != nil && old(rc.jump) != nil && old(rc.rd) != nil ==> (forall k :: {row(p)[k]} off(p) <= k && k < off(p) + n && k < off(p) + old(rc.buf.blen) ==> row(p)[k] == old(mem8(rc.buf.barr))[old(rc.buf.boff) + k - off(p)])
  ensures [eof] errIs(err, io.EOF) ==> n == 0 && rc.main.pos == rc.main.end && rc.main.clean && rc.buf.blen == 0
  ensures [progress] err == nil && len(p) > 0 ==> n > 0

func bcj2.readCloser.Close(rc) (err)
  props C16, C04
  requires rc != nil && (rc.main != nil && rc.call != nil && rc.jump != nil && rc.rd != nil ==> bjSep(rc))
  modifies rc.main, rc.call, rc.jump, rc.rd, rc.main.closes, rc.call.closes, rc.jump.closes, rc.rd.closes
  ensures [again] old(rc.main) == nil || old(rc.call) == nil || old(rc.jump) == nil || old(rc.rd) == nil ==> err != nil && unchanged(rc.main, rc.call, rc.jump, rc.rd)
  ensures [source] old(rc.main) != nil && old(rc.call) != nil && old(rc.jump) != nil && old(rc.rd) != nil ==> old(rc.main).closes == old(rc.main.closes) + 1 && old(rc.call).closes == old(rc.call.closes) + 1 && old(rc.jump).closes == old(rc.jump.closes) + 1 && old(rc.rd).closes == old(rc.rd.closes) + 1
  ensures [report] old(rc.main) != nil && old(rc.call) != nil && old(rc.jump) != nil && old(rc.rd) != nil && (old(rc.main).clfail || old(rc.call).clfail || old(rc.jump).clfail || old(rc.rd).clfail) ==> err != nil
  ensures [closed] err == nil ==> rc.main == nil && rc.call == nil && rc.jump == nil && rc.rd == nil

func bcj2.NewReader(p, s, readers) (r, err)
  props C13, C22, C04
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> stream(readers[k])
  modifies readers[3].pos
  loop 2
    vars rc *bcj2.readCloser
    invariant [probs] forall k :: {rc.sd[k]} 0 <= k && k < $i ==> rc.sd[k] == 1024
  ensures [nil] (err == nil) == (r != nil)
  ensures [count] len(readers) != 4 ==> err != nil
  ensures [short] len(readers) == 4 && old(readers[3].pos) + 5 > readers[3].end ==> err != nil
  ensures [type] err == nil ==> is(r, "*bcj2.readCloser") && (let d = dyn(r, "*bcj2.readCloser") :: fresh(d) && d.call == readers[1] && d.jump == readers[2] && d.main != nil && d.rd != nil && d.buf != nil && bufOK(d.buf) && d.buf.blen == 0)
  ensures [init] err == nil ==> (let d = dyn(r, "*bcj2.readCloser") :: d.nrange == 0xffffffff && d.written == 0 && d.previous == 0 && (forall k :: {d.sd[k]} 0 <= k && k < 258 ==> d.sd[k] == 1024))
