// C11: branch filters. b holds consecutive instructions, the first at the
// converter's address.

purebv byteLE(w u32, k int) u8 = u8(w >> u32(8 * (k & 3)))
purebv byteBE(w u32, k int) u8 = u8(w >> u32(24 - 8 * (k & 3)))

// ARM: BL with a 24-bit word offset; the program counter is 8 ahead
purebv armW(w u32, pc u32, enc bool) u32 = (w >> 24) == 0xeb ? u32(0xeb000000) | ((enc ? w + (pc >> 2) : w - (pc >> 2)) & 0x00ffffff) : w

func bra.arm.Convert(c, b, encoding) (n)
  mode bv
  props C11, C04
  timeout 60
  modifies elems(b), c.ip
  requires c != nil && len(b) < 0x100000000000000
  loop 1
    vars i int
    invariant [i] 0 <= i && (i & 3) == 0 && i <= len(b) && len(b) < 0x100000000000000 && c.ip == u32(int(old(c.ip)) + i)
    invariant [C11.out] forall x :: {b[x]} 0 <= x && x < i ==> b[x] == byteLE(armW(le32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + 4 + (x & -4)), encoding), x)
    invariant [C11.rest] forall x :: {b[x]} i <= x && x < len(b) ==> b[x] == old(b[x])
  ensures [count] n == (len(b) & -4)
  ensures [ip] c.ip == u32(int(old(c.ip)) + n)
  ensures [C11.value] forall x :: {b[x]} 0 <= x && x < n ==> b[x] == byteLE(armW(le32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + 4 + (x & -4)), encoding), x)
  ensures [C11.tail] forall x :: {b[x]} n <= x && x < len(b) ==> b[x] == old(b[x])

lemma arm_inverse(w u32, pc u32)
  props C11
  mode bv
  ensures armW(armW(w, pc, true), pc, false) == w && armW(armW(w, pc, false), pc, true) == w

// PowerPC: branch and link with an absolute-address bit of 0
purebv ppcW(w u32, pc u32, enc bool) u32 = (w & 0xfc000003) == 0x48000001 ? u32(0x48000000) | ((enc ? w + pc : w - pc) & 0x03ffffff) : w

lemma ppc_inverse(w u32, pc u32)
  props C11
  mode bv
  requires (pc & 3) == 0
  ensures ppcW(ppcW(w, pc, true), pc, false) == w && ppcW(ppcW(w, pc, false), pc, true) == w

func bra.ppc.Convert(c, b, encoding) (n)
  mode bv
  props C11, C04
  timeout 60
  modifies elems(b), c.ip
  requires c != nil && len(b) < 0x100000000000000
  loop 1
    vars i int
    invariant [i] 0 <= i && (i & 3) == 0 && i <= len(b) && c.ip == u32(int(old(c.ip)) + i)
    invariant [C11.out] forall x :: {b[x]} 0 <= x && x < i ==> b[x] == byteBE(ppcW(be32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
    invariant [C11.rest] forall x :: {b[x]} i <= x && x < len(b) ==> b[x] == old(b[x])
  ensures [count] n == (len(b) & -4)
  ensures [ip] c.ip == u32(int(old(c.ip)) + n)
  ensures [C11.value] forall x :: {b[x]} 0 <= x && x < n ==> b[x] == byteBE(ppcW(be32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
  ensures [C11.tail] forall x :: {b[x]} n <= x && x < len(b) ==> b[x] == old(b[x])

// SPARC: call with a 30-bit word offset whose upper bits are a sign extension
purebv spD(w u32, pc u32, enc bool) u32 = (enc ? (w << 2) + pc : (w << 2) - pc) >> 2
purebv spS(d u32) u32 = (((u32(0) - ((d >> 22) & 1)) << 22) & 0x3fffffff) | (d & 0x3fffff) | 0x40000000
purebv sparcW(w u32, pc u32, enc bool) u32 = (w >> 22) == 0x100 || (w >> 22) == 0x1ff ? spS(spD(w, pc, enc)) : w

lemma sparc_inverse(w u32, pc u32)
  props C11
  mode bv
  requires (pc & 3) == 0
  ensures sparcW(sparcW(w, pc, true), pc, false) == w && sparcW(sparcW(w, pc, false), pc, true) == w

func bra.sparc.Convert(c, b, encoding) (n)
  mode bv
  props C11, C04
  timeout 60
  modifies elems(b), c.ip
  requires c != nil && len(b) < 0x100000000000000
  loop 1
    vars i int
    invariant [i] 0 <= i && (i & 3) == 0 && i <= len(b) && c.ip == u32(int(old(c.ip)) + i)
    invariant [C11.out] forall x :: {b[x]} 0 <= x && x < i ==> b[x] == byteBE(sparcW(be32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
    invariant [C11.rest] forall x :: {b[x]} i <= x && x < len(b) ==> b[x] == old(b[x])
  ensures [count] n == (len(b) & -4)
  ensures [ip] c.ip == u32(int(old(c.ip)) + n)
  ensures [C11.value] forall x :: {b[x]} 0 <= x && x < n ==> b[x] == byteBE(sparcW(be32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
  ensures [C11.tail] forall x :: {b[x]} n <= x && x < len(b) ==> b[x] == old(b[x])

// ARM64: BL with a 26-bit word offset; ADRP with a 21-bit page offset, of
// which only those between -2^17 and 2^17 pages are converted
purebv a64BL(w u32, pc u32, enc bool) u32 = u32(0x94000000) | ((enc ? w + (pc >> 2) : w - (pc >> 2)) & 0x03ffffff)
purebv a64Imm(w u32) u32 = ((w >> 29) & 3) | ((w >> 3) & 0x1ffffc)
purebv a64Pg(w u32, pc u32, enc bool) u32 = enc ? a64Imm(w) + (pc >> 12) : a64Imm(w) - (pc >> 12)
purebv a64Pk(w u32, g u32) u32 = u32(0x90000000) | (w & 0x1f) | ((g & 3) << 29) | ((g & 0x3fffc) << 3) | ((u32(0) - (g & 0x20000)) & 0x00e00000)
purebv arm64W(w u32, pc u32, enc bool) u32 =
    (w >> 26) == 0x25 ? a64BL(w, pc, enc)
  : (w & 0x9f000000) == 0x90000000 && ((a64Imm(w) + 0x20000) & 0x1c0000) == 0 ? a64Pk(w, a64Pg(w, pc, enc))
  : w

lemma arm64_inverse(w u32, pc u32)
  props C11
  mode bv
  requires (pc & 3) == 0
  ensures arm64W(arm64W(w, pc, true), pc, false) == w && arm64W(arm64W(w, pc, false), pc, true) == w

func bra.arm64.Convert(c, b, encoding) (n)
  mode bv
  props C11, C04
  timeout 60
  modifies elems(b), c.ip
  requires c != nil && len(b) < 0x100000000000000
  loop 1
    vars i int
    invariant [i] 0 <= i && (i & 3) == 0 && i <= len(b) && c.ip == u32(int(old(c.ip)) + i)
    invariant [C11.out] forall x :: {b[x]} 0 <= x && x < i ==> b[x] == byteLE(arm64W(le32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
    invariant [C11.rest] forall x :: {b[x]} i <= x && x < len(b) ==> b[x] == old(b[x])
  ensures [count] n == (len(b) & -4)
  ensures [ip] c.ip == u32(int(old(c.ip)) + n)
  ensures [C11.value] forall x :: {b[x]} 0 <= x && x < n ==> b[x] == byteLE(arm64W(le32(old(row(b)), off(b) + (x & -4)), u32(int(old(c.ip)) + (x & -4)), encoding), x)
  ensures [C11.tail] forall x :: {b[x]} n <= x && x < len(b) ==> b[x] == old(b[x])
