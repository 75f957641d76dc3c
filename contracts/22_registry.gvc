// C22: the table of decoders. regd(k) is what is registered for the method id k.
opaque sync.Map
pure regOK() bool = forall k str :: {smap(addr("sevenzip.decompressors"), k)} is(smap(addr("sevenzip.decompressors"), k), "sevenzip.Decompressor")

func sevenzip.RegisterDecompressor(method, dcomp)
  props C22, C24
  modifies smap(addr("sevenzip.decompressors"))
  ensures [set] let v = smap(addr("sevenzip.decompressors"), strof(method)) :: is(v, "sevenzip.Decompressor") && ref(v) == ref(dcomp)
  ensures [others] forall k str :: {smap(addr("sevenzip.decompressors"), k)} k != strof(method) ==> smap(addr("sevenzip.decompressors"), k) == old(smap(addr("sevenzip.decompressors"), k))

func sevenzip.decompressor(method) (d)
  props C22, C21, C04
  ensures [found] is(smap(addr("sevenzip.decompressors"), strof(method)), "sevenzip.Decompressor") ==> ref(d) == ref(smap(addr("sevenzip.decompressors"), strof(method)))
  ensures [none] !is(smap(addr("sevenzip.decompressors"), strof(method)), "sevenzip.Decompressor") ==> d == nil

pure regs(k str, f ref) bool = is(smap(addr("sevenzip.decompressors"), k), "sevenzip.Decompressor") && ref(smap(addr("sevenzip.decompressors"), k)) == f
// the method ids of the format (7zip's Methods.txt) and the decoder of each
func sevenzip.init#1()
  props C22
  inline RegisterDecompressor
  modifies smap(addr("sevenzip.decompressors"))
  ensures [copy] regs("\x00", funcref("github.com/bodgit/sevenzip.newCopyReader"))
  ensures [delta] regs("\x03", funcref("github.com/bodgit/sevenzip/internal/delta.NewReader"))
  ensures [lzma] regs("\x03\x01\x01", funcref("github.com/bodgit/sevenzip/internal/lzma.NewReader"))
  ensures [bcj] regs("\x03\x03\x01\x03", funcref("github.com/bodgit/sevenzip/internal/bra.NewBCJReader"))
  ensures [bcj2] regs("\x03\x03\x01\x1b", funcref("github.com/bodgit/sevenzip/internal/bcj2.NewReader"))
  ensures [ppc] regs("\x03\x03\x02\x05", funcref("github.com/bodgit/sevenzip/internal/bra.NewPPCReader"))
  ensures [arm] regs("\x03\x03\x05\x01", funcref("github.com/bodgit/sevenzip/internal/bra.NewARMReader"))
  ensures [sparc] regs("\x03\x03\x08\x05", funcref("github.com/bodgit/sevenzip/internal/bra.NewSPARCReader"))
  ensures [deflate] regs("\x04\x01\x08", funcref("github.com/bodgit/sevenzip/internal/deflate.NewReader"))
  ensures [bzip2] regs("\x04\x02\x02", funcref("github.com/bodgit/sevenzip/internal/bzip2.NewReader"))
  ensures [zstd] regs("\x04\xf7\x11\x01", funcref("github.com/bodgit/sevenzip/internal/zstd.NewReader"))
  ensures [brotli] regs("\x04\xf7\x11\x02", funcref("github.com/bodgit/sevenzip/internal/brotli.NewReader"))
  ensures [lz4] regs("\x04\xf7\x11\x04", funcref("github.com/bodgit/sevenzip/internal/lz4.NewReader"))
  ensures [aes] regs("\x06\xf1\x07\x01", funcref("github.com/bodgit/sevenzip/internal/aes7z.NewReader"))
  ensures [arm64] regs("\x0a", funcref("github.com/bodgit/sevenzip/internal/bra.NewARM64Reader"))
  ensures [lzma2] regs("\x21", funcref("github.com/bodgit/sevenzip/internal/lzma2.NewReader"))
  ensures [ppmd] regs("\x03\x04\x01", funcref("github.com/bodgit/sevenzip/internal/ppmd.NewReader"))

func sevenzip.newCopyReader(p, s, readers) (r, err)
  props C22, C04
  ensures [args] len(readers) != 1 ==> err != nil
  ensures [copy] len(readers) == 1 ==> err == nil && r == readers[0]

// each branch filter starts in its initial state, over the one input
pure braOf(r, reader) bool = is(r, "*bra.readCloser") && fresh(dyn(r, "*bra.readCloser")) && dyn(r, "*bra.readCloser").rc == reader
func bra.NewARMReader(p, s, readers) (r, err)
  props C11, C22, C04
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [filter] err == nil ==> braOf(r, readers[0]) && (let c = dyn(r, "*bra.readCloser").conv :: is(c, "*bra.arm") && dyn(c, "*bra.arm").ip == 4)
func bra.NewPPCReader(p, s, readers) (r, err)
  props C11, C22, C04
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [filter] err == nil ==> braOf(r, readers[0]) && (let c = dyn(r, "*bra.readCloser").conv :: is(c, "*bra.ppc") && dyn(c, "*bra.ppc").ip == 0)
func bra.NewSPARCReader(p, s, readers) (r, err)
  props C11, C22, C04
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [filter] err == nil ==> braOf(r, readers[0]) && (let c = dyn(r, "*bra.readCloser").conv :: is(c, "*bra.sparc") && dyn(c, "*bra.sparc").ip == 0)
func bra.NewARM64Reader(p, s, readers) (r, err)
  props C11, C22, C04
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [filter] err == nil ==> braOf(r, readers[0]) && (let c = dyn(r, "*bra.readCloser").conv :: is(c, "*bra.arm64") && dyn(c, "*bra.arm64").ip == 0)
func bra.NewBCJReader(p, s, readers) (r, err)
  props C11, C22, C04
  ensures [count] len(readers) != 1 <==> err != nil
  ensures [filter] err == nil ==> braOf(r, readers[0]) && (let c = dyn(r, "*bra.readCloser").conv :: is(c, "*bra.bcj") && dyn(c, "*bra.bcj").ip == 0 && dyn(c, "*bra.bcj").state == 0)
