// C12: the Delta filter.

// output byte k of the filter at distance D over a stream starting at s
rec dout(d bytes, s int, D int, k int) u8 = k < s ? u8(0) : d[k] + dout(d, s, D, k - D)

pure deltaInv(rc) bool = 1 <= rc.delta && rc.delta <= 256 && (rc.rc != nil ==> stream(rc.rc) && rc.rc.start <= rc.rc.pos
   && (forall j :: {rc.state[j]} 0 <= j && j < rc.delta ==> rc.state[j] == dout(rc.rc.data, rc.rc.start, rc.delta, rc.rc.pos - rc.delta + j)))

func delta.NewReader(p, size, readers) (r, err)
  props C12, C22, C04
  requires len(readers) == 1 ==> stream(readers[0]) && readers[0].start == readers[0].pos
  ensures [count] len(readers) != 1 || len(p) != 1 ==> err != nil && r == nil
  ensures [ok] len(readers) == 1 && len(p) == 1 ==> err == nil && is(r, "*delta.readCloser")
  ensures [distance] err == nil ==> dyn(r, "*delta.readCloser").delta == int(p[0]) + 1 && dyn(r, "*delta.readCloser").rc == readers[0]
  ensures [inv] err == nil ==> deltaInv(dyn(r, "*delta.readCloser"))

func delta.readCloser.Read(rc, p) (n, err)
  props C12, C04
  requires rc != nil && deltaInv(rc) && arr(p) >= 0
  modifies rc.rc.pos, elems(p), rc.state
  loop 1
    vars j int; i int; n int; buffer [256]byte
    invariant [j] 0 <= j && j <= rc.delta && 0 <= i && i <= n && (i < n ==> j == 0 || j == rc.delta)
    invariant [buf] forall x :: {buffer[x]} 0 <= x && x < rc.delta ==> buffer[x] == dout(rc.rc.data, rc.rc.start, rc.delta, old(rc.rc.pos) + i - j + x - (x < j ? 0 : rc.delta))
    invariant [out] forall x :: {p[x]} 0 <= x && x < n ==> p[x] == (x < i ? dout(rc.rc.data, rc.rc.start, rc.delta, old(rc.rc.pos) + x) : rc.rc.data[old(rc.rc.pos) + x])
  loop 2
    vars j int; i int; n int; buffer [256]byte
    invariant [j] 0 <= j && j <= rc.delta && 0 <= i && i <= n
    invariant [buf] forall x :: {buffer[x]} 0 <= x && x < rc.delta ==> buffer[x] == dout(rc.rc.data, rc.rc.start, rc.delta, old(rc.rc.pos) + i - j + x - (x < j ? 0 : rc.delta))
    invariant [out] forall x :: {p[x]} 0 <= x && x < n ==> p[x] == (x < i ? dout(rc.rc.data, rc.rc.start, rc.delta, old(rc.rc.pos) + x) : rc.rc.data[old(rc.rc.pos) + x])
  ensures [closed] old(rc.rc) == nil ==> n == 0 && err != nil
  ensures [count] rc.rc != nil ==> 0 <= n && n <= len(p) && rc.rc.pos == old(rc.rc.pos) + n
  ensures [value] rc.rc != nil && (err == nil || errIs(err, io.EOF)) ==> forall x :: {p[x]} 0 <= x && x < n ==> p[x] == dout(rc.rc.data, rc.rc.start, rc.delta, old(rc.rc.pos) + x)
  ensures [state] rc.rc != nil && (err == nil || errIs(err, io.EOF)) ==> deltaInv(rc)
  ensures [progress] rc.rc != nil && err == nil && len(p) > 0 ==> old(rc.rc.pos) < rc.rc.end
  ensures [end] rc.rc != nil && err != nil ==> rc.rc.pos == rc.rc.end
