// C07, C21, C22: a folder's coders are connected as its bind pairs say, each
// over its own part of the packed streams.
//
// A decoder d (made by a Decompressor) has the method cfun, the properties
// cprops, the size csize and the inputs cin[0..nin).
ghost cfun ref
ghost cprops str
ghost csize int
ghost nin int
ghost cin [int]ref
// a reader that reads from another one; limit is the number of bytes it lets through
ghost lsrc ref
ghost limit int
// whether the one it reads from is a cipher
ghost lcrypto bool
pure crypto(x) bool = implements(x, "sevenzip.CryptoReadCloser")
// the password a decoder was given
ghost pw str
// the coder (the cidx'th of its folder) and the password a reader was made for
ghost ccoder ref
ghost cidx int
ghost cpass str
// the reader last made for each coder of a folder
ghost outs [int]ref

// whether the reader last made was a cipher, and how many of a folder's were
ghost lastcrypto bool
ghost nenc int

extern type sevenzip.Decompressor(d, props, size, readers) (r, err)
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> readers[k] != nil && stream(readers[k])
  modifies all(pos), d.lastcrypto
  ensures forall x ref :: {x.pos} old(x.pos) <= x.pos && (old(x.pos) <= x.end ==> x.pos <= x.end)
  ensures d.lastcrypto == (err == nil && crypto(r))
  ensures err == nil ==> r != nil && fresh(r) && stream(r) && r.cfun == ref(d) && r.cprops == strof(props) && r.csize == int(size) && r.nin == len(readers) && (forall k :: {r.cin[k]} 0 <= k && k < len(readers) ==> r.cin[k] == ref(readers[k]))
extern sevenzip.CryptoReadCloser.Password(c, p) (err)
  modifies c.pw
  ensures c.pw == p
extern github.com/bodgit/plumbing.LimitReadCloser(rc, n) (r)
  requires stream(rc)
  ensures r != nil && fresh(r) && r.lsrc == ref(rc) && r.limit == int(n) && r.lcrypto == crypto(rc) && r.closes == 0 && stream(r) && r.data == rc.data && r.pos == rc.pos && r.start == rc.pos && r.end == min(rc.end, rc.pos + max(0, int(n))) && r.clean == (rc.end >= rc.pos + max(0, int(n)) || rc.clean)
extern bufio.NewReader(rd) (b)
  requires stream(rd)
  ensures b != nil && fresh(b) && b.lsrc == ref(rd) && stream(b) && b.data == rd.data && b.pos == rd.pos && b.start == rd.pos && b.end == rd.end && b.clean == rd.clean
func util.NopCloser(r) (rc)
  props C07, C04
  requires stream(r)
  set true :: rc.lsrc = ref(r)
  set true :: rc.data = r.data
  set true :: rc.pos = r.pos
  set true :: rc.end = r.end
  set true :: rc.clean = r.clean
  ensures [wrap] is(rc, "*util.nopCloser") && fresh(rc) && dyn(rc, "*util.nopCloser").Reader == r && rc.lsrc == ref(r)
  ensures [stream] stream(rc) && rc.data == r.data && rc.pos == r.pos && rc.end == r.end && rc.clean == r.clean

// the reader made for a coder: its decoder, limited to the coder's size
pure coderOut(x ref, f, o int, password str) bool = let d = x.lsrc :: let c = f.coder[o] :: let g = smap(addr("sevenzip.decompressors"), strof(c.id)) ::
  x != nil && is(g, "sevenzip.Decompressor") && d.cfun == ref(g) && d.cprops == strof(c.properties) && d.csize == int(f.size[o]) && x.limit == int(i64(f.size[o])) && x.nin == d.nin && x.cin == d.cin

pure made(x ref, f, o int, password str) bool = x != nil && x.ccoder == ref(f.coder[o]) && x.cidx == o && x.cpass == password && x.limit == int(i64(f.size[o]))
func sevenzip.folder.coderReader(f, readers, coder, password) (rc, enc, err)
  props C07, C21, C22, C04
  requires f != nil && coder < len(f.coder) && coder < len(f.size) && f.coder[coder] != nil
  requires forall k :: {readers[k]} 0 <= k && k < len(readers) ==> readers[k] != nil && stream(readers[k])
  modifies all(pos), all(pw), f.outs, f.nenc, all(lastcrypto)
  set enc :: f.nenc = f.nenc + 1
  set err == nil :: rc.ccoder = ref(f.coder[coder])
  set err == nil :: rc.cidx = int(coder)
  set err == nil :: rc.cpass = password
  set err == nil :: rc.nin = (rc.lsrc).nin
  set err == nil :: rc.cin = (rc.lsrc).cin
  set err == nil :: f.outs = store(f.outs, int(coder), ref(rc))
  ensures [pos] forall x ref :: {x.pos} old(x.pos) <= x.pos && (old(x.pos) <= x.end ==> x.pos <= x.end)
  ensures [outs] err == nil ==> f.outs == store(old(f.outs), int(coder), ref(rc))
  assert [decoder] err == nil ==> coderOut(ref(rc), f, int(coder), password)
  ensures [made] err == nil ==> fresh(rc) && made(ref(rc), f, int(coder), password)
  ensures [inputs] err == nil ==> rc.nin == len(readers) && (forall k :: {rc.cin[k]} 0 <= k && k < len(readers) ==> rc.cin[k] == ref(readers[k]))
  ensures [stream] err == nil ==> rc != nil && stream(rc) && (0 <= i64(f.size[coder]) ==> rc.end <= rc.pos + int(f.size[coder]))
  assert [password] err == nil && enc ==> (let d = rc.lsrc :: d.pw == password)
  ensures [enc] err == nil ==> enc == rc.lcrypto
  ensures [open] err == nil ==> rc.closes == 0
  ensures [C21.count] f.nenc == old(f.nenc) + (enc ? 1 : 0)
  assert [C21.enc] let g = smap(addr("sevenzip.decompressors"), strof(f.coder[coder].id)) :: is(g, "sevenzip.Decompressor") && ref(g) != nil ==> enc == g.lastcrypto
  assert [unknown] !is(smap(addr("sevenzip.decompressors"), strof(f.coder[coder].id)), "sevenzip.Decompressor") ==> err != nil && !enc

// the sum of the first k sizes (as the code adds them: 64 bits)
rec wsum(v [int]u64, o int, k int) u64 = k <= 0 ? u64(0) : wsum(v, o, k - 1) + v[o + k - 1]
pure sizesTo(si, k int) u64 = wsum(row(si.packInfo.size), off(si.packInfo.size), k)
pure inBase(f, o int) int = psum(comp("sevenzip.coder", "in"), row(f.coder), off(f.coder), o)
pure outBase(f, o int) int = psum(comp("sevenzip.coder", "out"), row(f.coder), off(f.coder), o)
pure sumsOK(f) bool = int(f.in) == inBase(f, len(f.coder)) && int(f.out) == outBase(f, len(f.coder))
pure storedOK(f) bool = allocated(arr(f.size)) && 0 <= arr(f.size) && allocated(arr(f.packed)) && 0 <= arr(f.packed)
pure foldersOK(si, fo int) bool = si != nil && si.unpackInfo != nil && okSI(si) && 0 <= fo && fo < len(si.unpackInfo.folder) && sumsOK(si.unpackInfo.folder[fo]) && storedOK(si.unpackInfo.folder[fo]) && allocated(arr(si.packInfo.size)) && 0 <= arr(si.packInfo.size)

func sevenzip.streamsInfo.folderOffset(si, folder) (o)
  props C07, C04
  requires si != nil && si.unpackInfo != nil && okSI(si) && 0 <= folder && folder <= len(si.unpackInfo.folder)
  loop 1
    vars offset uint64; k uint64
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), $i, folder)
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), 0, $i)
    invariant [sum] int(k) == packs(si.unpackInfo.folder, $i) && offset == sizesTo(si, int(k)) && int(k) <= $i * 0xffffffff
  loop 2
    vars offset uint64; j uint64; k uint64
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), $i1 + 1, folder)
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), folder, len(si.unpackInfo.folder))
    invariant [sum] offset == sizesTo(si, int(j)) && int(k) <= int(j) && int(j) <= packs(si.unpackInfo.folder, $i1 + 1)
  ensures [offset] o == i64(si.packInfo.position + sizesTo(si, packs(si.unpackInfo.folder, folder)))

// the part of a source which holds the i'th packed stream of a folder
pure packedPart(y ref, si, r, fo int, i int) bool = let b = y.lsrc :: let s = b.lsrc ::
  s.secSrc == ref(r) && s.secOff == int(i64(si.packInfo.position + sizesTo(si, packs(si.unpackInfo.folder, fo) + i))) && s.secLen == int(i64(si.packInfo.size[packs(si.unpackInfo.folder, fo) + i]))
// the packed stream that is input j (the last one, -1 if there is none)
rec packedOf(v [int]u64, o int, n int, j int) int = n <= 0 ? 0 - 1 : int(v[o + n - 1]) == j ? n - 1 : packedOf(v, o, n - 1, j)
pure packedIn(f, j int) int = packedOf(row(f.packed), off(f.packed), len(f.packed), j)
// input j of a folder is a packed stream or the output it is bound to
pure inputOK(y ref, f, si, r, fo int, j int, n int) bool = packedIn(f, j) >= 0 ? packedPart(y, si, r, fo, packedIn(f, j)) : (let k = bpOfIn(f, j) :: k >= 0 && int(f.bindPair[k].out) < n && y == f.outs[int(f.bindPair[k].out)])
pure wiredN(x ref, f, o int) bool = x.nin == int(f.coder[o].in)
pure wired(x ref, f, si, r, fo int, o int) bool = (forall j :: {x.cin[j]} 0 <= j && j < x.nin ==> inputOK(x.cin[j], f, si, r, fo, inBase(f, o) + j, o))

func sevenzip.streamsInfo.folderReader(si, r, folder, password) (fr, crc, enc, err)
  props C07, C08, C10, C21, C04
  timeout 60
  requires foldersOK(si, folder)
  modifies all(pos), all(pw), (si.unpackInfo.folder[folder]).outs, (si.unpackInfo.folder[folder]).nenc, all(lastcrypto)
  set err == nil :: fr.fsi = ref(si)
  set err == nil :: fr.ffolder = folder
  set err == nil :: fr.pooled = false
  loop 1
    vars packedOffset int
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), 0, $i)
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), $i + 1, len(si.unpackInfo.folder))
    invariant [offset] packedOffset == packs(si.unpackInfo.folder, $i)
  loop 2
    vars f *folder; in []io.ReadCloser; offset int64; packedOffset int
    use psum_mono(comp("sevenzip.folder", "packedStreams"), row(si.unpackInfo.folder), off(si.unpackInfo.folder), folder + 1, len(si.unpackInfo.folder))
    invariant [offset] offset == i64(sizesTo(si, packedOffset + $i) - sizesTo(si, packedOffset))
    invariant [packed] forall j :: {in[j]} 0 <= j && j < len(in) ==> (in[j] != nil) == (packedOf(row(f.packed), off(f.packed), $i, j) >= 0) && (in[j] != nil ==> stream(in[j]) && packedPart(ref(in[j]), si, r, folder, packedOf(row(f.packed), off(f.packed), $i, j)))
  loop 3
    vars f *folder; in []io.ReadCloser; out []io.ReadCloser; input uint64; output uint64; hasEncryption bool
    use psum_mono(comp("sevenzip.coder", "in"), row(f.coder), off(f.coder), $i + 1, len(f.coder))
    use psum_mono(comp("sevenzip.coder", "out"), row(f.coder), off(f.coder), $i + 1, len(f.coder))
    invariant [at] int(input) == inBase(f, $i) && int(output) == outBase(f, $i) && int(output) == $i
    invariant [stream] forall j :: {in[j]} 0 <= j && j < len(in) && in[j] != nil ==> stream(in[j])
    invariant [in] forall j :: {in[j]} 0 <= j && j < len(in) ==> (in[j] == nil ? packedIn(f, j) < 0 : inputOK(ref(in[j]), f, si, r, folder, j, $i))
    invariant [out] forall o :: {out[o]} 0 <= o && o < len(out) ==> (out[o] != nil) == (o < $i) && (o < $i ==> stream(out[o]) && ref(out[o]) == f.outs[o] && fresh(out[o]) && out[o].closes == 0)
    invariant [enc] f.nenc >= old((si.unpackInfo.folder[folder]).nenc) && hasEncryption == (f.nenc > old((si.unpackInfo.folder[folder]).nenc))
    invariant [coder] forall o :: {f.outs[o]} 0 <= o && o < $i ==> made(f.outs[o], f, o, password)
    invariant [chainN] forall o :: {f.outs[o]} 0 <= o && o < $i ==> wiredN(f.outs[o], f, o)
    invariant [chain] forall o :: {f.outs[o]} 0 <= o && o < $i ==> wired(f.outs[o], f, si, r, folder, o)
  loop 4
    vars f *folder; in []io.ReadCloser; j uint64; input uint64
    invariant [j] int(input) <= int(j)
    invariant [stream] forall j :: {in[j]} 0 <= j && j < len(in) && in[j] != nil ==> stream(in[j])
    invariant [in] forall j :: {in[j]} 0 <= j && j < len(in) ==> (in[j] == nil ? packedIn(f, j) < 0 : inputOK(ref(in[j]), f, si, r, folder, j, $i3))
    invariant [done] forall a :: {in[a]} int(input) <= a && a < int(j) ==> in[a] != nil
  loop 5
    vars f *folder; unbound []uint64
    invariant [unbound] forall k :: {unbound[k]} 0 <= k && k < len(unbound) ==> int(unbound[k]) < $i && !boundOut(f, int(unbound[k]))
    invariant [all] forall o :: {bpOfOut(f, o)} 0 <= o && o < $i && !boundOut(f, o) ==> len(unbound) > 0 && (len(unbound) == 1 ==> int(unbound[0]) == o)
  ensures [coder] err == nil ==> (let f = si.unpackInfo.folder[folder] :: forall o :: {f.outs[o]} 0 <= o && o < len(f.coder) ==> made(f.outs[o], f, o, password))
  ensures [chainN] err == nil ==> (let f = si.unpackInfo.folder[folder] :: forall o :: {f.outs[o]} 0 <= o && o < len(f.coder) ==> wiredN(f.outs[o], f, o))
  ensures [chain] err == nil ==> (let f = si.unpackInfo.folder[folder] :: forall o :: {f.outs[o]} 0 <= o && o < len(f.coder) ==> wired(f.outs[o], f, si, r, folder, o))
  ensures [ok] err == nil ==> fr != nil && fresh(fr) && frOK(fr) && frSrc(fr).pos == frSrc(fr).start
  ensures [end] err == nil ==> (let f = si.unpackInfo.folder[folder] :: let m = frSrc(fr).cidx :: 0 <= m && m < int(f.out) && !boundOut(f, m) && ref(frSrc(fr)) == f.outs[m] && (forall o :: {bpOfOut(f, o)} 0 <= o && o < int(f.out) && o != m ==> boundOut(f, o)))
  ensures [size] err == nil ==> fr.size == i64(usize(si.unpackInfo.folder[folder]))
  ensures [crc] err == nil ==> crc == (si.unpackInfo.digest == nil ? u32(0) : si.unpackInfo.digest[folder])
  ensures [enc] err == nil ==> enc == fr.hasEncryption
  ensures [C21.enc] enc == ((si.unpackInfo.folder[folder]).nenc > old((si.unpackInfo.folder[folder]).nenc))
  ensures [id] err == nil ==> fr.fsi == ref(si) && fr.ffolder == folder && !fr.pooled && frSrc(fr).closes == 0
