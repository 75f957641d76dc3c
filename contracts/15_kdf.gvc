// C15: AES parameters and the key derivation.

// SHA-256 as an abstract state machine over bytes
sort HState
uf habs(h HState, b u8) HState
rec habsorb(h HState, d bytes, s int, e int) HState = e <= s ? h : habs(habsorb(h, d, s, e - 1), d[e - 1])
uf shaInit(x int) HState
uf shaOut(h HState, k int) u8
ghost hs HState
extern crypto/sha256.New() (h)
  ensures h != nil && fresh(h) && is(h, "*crypto/internal/fips140/sha256.Digest") && h.hs == shaInit(0)
extern crypto/internal/fips140/sha256.Digest.Write(d, p) (n, err)
  requires d != nil
  modifies d.hs
  ensures d.hs == habsorb(old(d.hs), row(p), off(p), off(p) + len(p)) && n == len(p) && err == nil
  ensures len(p) == 8 ==> d.hs == habs8(old(d.hs), le64(row(p), off(p)))
extern crypto/internal/fips140/sha256.Digest.Sum(d, b) (r)
  requires d != nil && b == nil
  ensures len(r) == 32 && fresh(arr(r)) && forall k :: {r[k]} 0 <= k && k < 32 ==> r[k] == shaOut(d.hs, k)

// the round function of the 7z key derivation
// absorbing the eight bytes of a little-endian number
uf habs8(h HState, v u64) HState
rec kdfR(d bytes, s int, e int, n int) HState = n <= 0 ? shaInit(0) : habs8(habsorb(kdfR(d, s, e, n - 1), d, s, e), u64(n - 1))
lemma habsorb_shift(h HState, d bytes, s int, x bytes, t int, n int)
  requires 0 <= n && forall k :: {d[k]} s <= k && k < s + n ==> d[k] == x[t + k - s]
  ensures habsorb(h, d, s, s + n) == habsorb(h, x, t, t + n)
  induct n
lemma kdfR_shift(d bytes, s int, x bytes, t int, m int, n int)
  requires 0 <= n && 0 <= m && forall k :: {d[k]} s <= k && k < s + m ==> d[k] == x[t + k - s]
  ensures kdfR(d, s, s + m, n) == kdfR(x, t, t + m, n)
  use habsorb_shift(kdfR(d, s, s + m, n - 1), d, s, x, t, m)
  induct n

// UTF-16LE form of a password, hexadecimal form of a salt
uf u16n(s str) int
uf u16b(s str, k int) u8
axiom u16n_range(s str)
  ensures 0 <= u16n(s) && u16n(s) <= 4 * len(s)
  auto {u16n(s)}
uf hexs(s str) str
uf unhex(s str) str
axiom hex_inv(s str)
  ensures unhex(hexs(s)) == s
  auto {hexs(s)}
extern encoding/hex.EncodeToString(p) (s)
  ensures s == hexs(strof(p))

// what is hashed each round before the counter: salt, then password
uf kc(salt str, pw str) bytes
axiom kc_def(s str, p str, k int)
  ensures (0 <= k && k < len(s) ==> kc(s, p)[k] == s[k]) && (len(s) <= k && k < len(s) + u16n(p) ==> kc(s, p)[k] == u16b(p, k - len(s)))
  auto {kc(s, p)[k]}
pure kdf(pw str, c int, salt str, k int) u8 = c == 63 ? (k < len(salt) + u16n(pw) ? kc(salt, pw)[k] : u8(0)) : shaOut(kdfR(kc(salt, pw), 0, len(salt) + u16n(pw), int(u64(1) << u64(c))), k)

// the cache only holds keys that belong to their cache key; a key is not
// written to once it is in the cache
extern aes7z.once() (c, err)
  ensures err == nil ==> c != nil
extern github.com/hashicorp/golang-lru/v2.Cache.Get(c, k) (v, ok)
  requires c != nil
  ensures ok ==> len(v) == 32 && (k.cycles <= 24 || k.cycles == 63) && forall i :: {v[i]} 0 <= i && i < 32 ==> v[i] == kdf(k.password, int(k.cycles), unhex(k.salt), i)
extern github.com/hashicorp/golang-lru/v2.Cache.Add(c, k, v) (ev)
  requires c != nil
  requires [key] len(v) == 32 && (k.cycles <= 24 || k.cycles == 63) && forall i :: {v[i]} 0 <= i && i < 32 ==> v[i] == kdf(k.password, int(k.cycles), unhex(k.salt), i)

extern golang.org/x/text/encoding.Encoding.NewEncoder(e) (enc)
  ensures enc != nil
ghost tw ref
extern golang.org/x/text/transform.NewWriter(w, t) (r)
  requires is(w, "*bytes.Buffer")
  ensures r != nil && fresh(r) && r.tw == ref(w)
extern golang.org/x/text/transform.Writer.Write(r, data) (n, err)
  requires let b = ptr(r.tw, "bytes.Buffer") :: bufOK(b)
  modifies mem8(ptr(r.tw, "bytes.Buffer").barr), ptr(r.tw, "bytes.Buffer").barr, ptr(r.tw, "bytes.Buffer").bbase, ptr(r.tw, "bytes.Buffer").bcap, ptr(r.tw, "bytes.Buffer").boff, ptr(r.tw, "bytes.Buffer").blen
  ensures let b = ptr(r.tw, "bytes.Buffer") :: bufOK(b) && b.blen == old(b.blen) + u16n(strof(data)) && (b.barr == old(b.barr) || fresh(b.barr))
  ensures let b = ptr(r.tw, "bytes.Buffer") :: forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + old(b.blen) ==> mem8(b.barr)[k] == old(mem8(b.barr))[old(b.boff) + k - b.boff]
  ensures let b = ptr(r.tw, "bytes.Buffer") :: forall k :: {mem8(b.barr)[k]} b.boff + old(b.blen) <= k && k < b.boff + b.blen ==> mem8(b.barr)[k] == u16b(strof(data), k - b.boff - old(b.blen))

func aes7z.calculateKey(password, cycles, salt) (key, err)
  props C15, C04
  requires 0 <= cycles && cycles <= 63
  loop 1
    vars h hash.Hash; b *bytes.Buffer
    use habsorb_shift(prev(h.hs), mem8(b.barr), b.boff, kc(old(strof(salt)), password), 0, b.blen)
    invariant [type] is(h, "*crypto/internal/fips140/sha256.Digest")
    invariant [C15.content] b.blen == len(salt) + u16n(password) && forall k :: {mem8(b.barr)[k]} b.boff <= k && k < b.boff + b.blen ==> mem8(b.barr)[k] == kc(old(strof(salt)), password)[k - b.boff]
    invariant [C15.hash] h.hs == kdfR(kc(old(strof(salt)), password), 0, len(salt) + u16n(password), $i)
  hide habsorb
  ensures [length] err == nil ==> len(key) == 32
  ensures [cap] cycles > 24 && cycles != 63 ==> err != nil
  ensures [C15.kdf] err == nil ==> forall k :: {key[k]} 0 <= k && k < 32 ==> key[k] == kdf(password, int(cycles), old(strof(salt)), k)

ghost akey ref
ghost civ str
ghost ckey str
extern crypto/aes.NewCipher(key) (b, err)
  ensures len(key) == 32 ==> err == nil
  ensures err == nil ==> b != nil && fresh(b) && b.ckey == strof(key)
extern crypto/cipher.NewCBCDecrypter(b, iv) (m)
  requires b != nil && len(iv) == 16
  ensures m != nil && fresh(m) && m.ckey == b.ckey && m.civ == strof(iv) && m.cpos == 0

func aes7z.readCloser.Password(rc, p) (err)
  props C15, C04
  requires rc != nil && 0 <= rc.cycles && rc.cycles <= 63 && len(rc.iv) == 16
  modifies rc.cbc
  ensures [cap] rc.cycles > 24 && rc.cycles != 63 ==> err != nil
  ensures [refuse] err != nil ==> unchanged(rc.cbc)
  ensures [iv] err == nil ==> rc.cbc != nil && rc.cbc.civ == strof(rc.iv) && rc.cbc.cpos == 0
  ensures [key] err == nil ==> len(rc.cbc.ckey) == 32 && forall k :: {rc.cbc.ckey[k]} 0 <= k && k < 32 ==> rc.cbc.ckey[k] == kdf(p, int(rc.cycles), old(strof(rc.salt)), k)

pure saltLen(p) int = (p[0] >= 128 ? 1 : 0) + int(p[1] / 16)
pure ivLen(p) int = ((p[0] / 64) % 2 == 1 ? 1 : 0) + int(p[1] % 16)
func aes7z.NewReader(p, s, readers) (r, err)
  props C15, C22, C04
  ensures [nil] (err == nil) == (r != nil)
  ensures [count] len(readers) != 1 || len(p) < 2 ==> err != nil
  ensures [length] len(readers) == 1 && len(p) >= 2 && p[0] >= 64 ==> (err == nil <==> len(p) == 2 + saltLen(p) + ivLen(p))
  ensures [method] len(readers) == 1 && len(p) >= 2 && p[0] < 64 ==> err != nil
  ensures [type] err == nil ==> is(r, "*aes7z.readCloser") && fresh(dyn(r, "*aes7z.readCloser")) && dyn(r, "*aes7z.readCloser").rc == readers[0] && dyn(r, "*aes7z.readCloser").cbc == nil
  ensures [cycles] err == nil ==> int(dyn(r, "*aes7z.readCloser").cycles) == int(p[0] % 64)
  ensures [salt] err == nil ==> (let d = dyn(r, "*aes7z.readCloser") :: len(d.salt) == saltLen(p) && (forall k :: {d.salt[k]} 0 <= k && k < len(d.salt) ==> d.salt[k] == p[2 + k]))
  ensures [iv] err == nil ==> (let d = dyn(r, "*aes7z.readCloser") :: len(d.iv) == 16 && (forall k :: {d.iv[k]} 0 <= k && k < 16 ==> d.iv[k] == (k < ivLen(p) ? p[2 + saltLen(p) + k] : 0)))
