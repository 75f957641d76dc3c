package sevenzip

// AES parameters and key derivation against an independent implementation of
// the 7z key schedule.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/bodgit/sevenzip/internal/aes7z"
)

func gvKey(pw string, cycles int, salt []byte) []byte {
	in := append(append([]byte{}, salt...), gvUTF16(pw)...)
	if cycles == 0x3f {
		key := make([]byte, 32)
		copy(key, in)
		return key
	}
	h := sha256.New()
	var ctr [8]byte
	for i := uint64(0); i < 1<<cycles; i++ {
		binary.LittleEndian.PutUint64(ctr[:], i)
		h.Write(in)
		h.Write(ctr[:])
	}
	return h.Sum(nil)
}

type gvKDF struct {
	pw     string
	cycles int
	salt   []byte
}

func (g *gvRun) password() string {
	parts := []string{"", "a", "pass", "é", "密码", "😀", "x\u0301", "\ufeff", "0", "ab", "long password with spaces "}
	var b strings.Builder
	for i := g.rnd.IntN(4); i >= 0; i-- {
		b.WriteString(parts[g.rnd.IntN(len(parts))])
	}
	if g.chance(15) {
		return ""
	}
	return b.String()
}

// TestGV_KDF derives keys for parameter sets that are near each other (one
// part changed at a time), more of them than the key cache holds, and
// decrypts what was encrypted with the reference key.
func TestGV_KDF(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	var pool []gvKDF
	for g.more(30000) {
		g.cases++
		var k gvKDF
		switch {
		case len(pool) > 0 && g.chance(3): // again
			k = pool[g.rnd.IntN(len(pool))]
		case len(pool) > 0 && g.chance(2): // one part differs
			k = pool[g.rnd.IntN(len(pool))]
			switch g.rnd.IntN(6) {
			case 0:
				k.pw = g.password()
			case 1:
				k.cycles = g.rnd.IntN(9)
			case 2:
				k.salt = g.bytes(g.rnd.IntN(17))
			case 3: // the same bytes, divided otherwise between salt and password
				if len(k.pw) > 0 && k.pw[0] < 0x80 && len(k.salt) < 15 {
					k.salt = append(append([]byte{}, k.salt...), k.pw[0], 0)
					k.pw = k.pw[1:]
				}
			case 4:
				if len(k.salt) > 0 {
					k.salt = bytes.Clone(k.salt)
					k.salt[len(k.salt)-1] ^= 0x10
				}
			case 5:
				k.cycles = 0x3f
			}
		default:
			k = gvKDF{g.password(), g.rnd.IntN(9), g.bytes(g.rnd.IntN(17))}
			if g.chance(12) {
				k.cycles = 10 + g.rnd.IntN(3)
			}
			if g.chance(6) {
				k.cycles = 0x3f
			}
		}
		if pool = append(pool, k); len(pool) > 14 {
			pool = pool[1:]
		}
		iv := g.bytes(g.rnd.IntN(17))
		what := fmt.Sprintf("password %q cycles %d salt %x iv %x", k.pw, k.cycles, k.salt, iv)
		g.guarded(what, func() { g.kdfCase(what, k, iv) })
	}
}

func gvAESProps(k gvKDF, iv []byte) []byte {
	p := []byte{byte(k.cycles), 0}
	if n := len(k.salt); n > 0 {
		p[0] |= 0x80
		p[1] |= byte(n-1) << 4
	}
	if n := len(iv); n > 0 {
		p[0] |= 0x40
		p[1] |= byte(n - 1)
	}
	return append(append(p, k.salt...), iv...)
}

func (g *gvRun) kdfCase(what string, k gvKDF, iv []byte) {
	props := gvAESProps(k, iv)
	if props[0]&0xc0 == 0 {
		return // neither salt nor vector: not supported by the package
	}
	// the record lies in a larger slice, which must stay as it is
	big := append(bytes.Clone(props), g.bytes(96)...)
	keep := bytes.Clone(big)
	key := gvKey(k.pw, k.cycles, k.salt)
	blk, _ := aes.NewCipher(key)
	full := make([]byte, 16)
	copy(full, iv)
	plain := g.bytes(16 * (1 + g.rnd.IntN(3)))
	enc := make([]byte, len(plain))
	cipher.NewCBCEncrypter(blk, full).CryptBlocks(enc, plain)
	// two readers over the same record, the second one derived later
	n := 1 + g.rnd.IntN(2)
	var rcs []io.ReadCloser
	for range n {
		rc, err := aes7z.NewReader(big[:len(props)], uint64(len(plain)), []io.ReadCloser{g.src(enc)})
		if err != nil {
			g.violate("%s: record %x refused: %v", what, props, err)
		}
		if g.chance(4) { // data must not come out before a password is set
			if m, err := rc.Read(make([]byte, 4)); m != 0 || err == nil || err == io.EOF {
				g.violate("%s: Read without a password gives %d, %v", what, m, err)
			}
		}
		if err := rc.(CryptoReadCloser).Password(k.pw); err != nil {
			g.violate("%s: Password: %v", what, err)
		}
		rcs = append(rcs, rc)
	}
	for _, rc := range rcs {
		got, err := io.ReadAll(rc)
		if err != nil || !bytes.Equal(got, plain) {
			g.violate("%s: decrypts to %s, want %s (%v)", what, gvHex(got), gvHex(plain), err)
		}
	}
	if !bytes.Equal(big, keep) {
		g.violate("%s: deriving the key changed the bytes around the properties record from %x to %x", what, keep, big)
	}
	// wrong length
	for _, d := range []int{-1, 1, 1 + g.rnd.IntN(20)} {
		if m := len(props) + d; m >= 0 {
			if rc, err := aes7z.NewReader(big[:m], 16, []io.ReadCloser{g.src(enc)}); err == nil {
				g.violate("%s: record %x of length %d (needs %d) accepted (%v)", what, props, m, len(props), rc != nil)
			}
		}
	}
	if g.chance(40) {
		c := 25 + g.rnd.IntN(38)
		p := bytes.Clone(props)
		p[0] = p[0]&0xc0 | byte(c)
		if rc, err := aes7z.NewReader(p, 16, []io.ReadCloser{g.src(enc)}); err == nil {
			if err := rc.(CryptoReadCloser).Password(k.pw); err == nil {
				g.violate("%s: cycle count %d accepted", what, c)
			}
		}
	}
	// number of inputs
	if g.chance(20) {
		for _, m := range []int{0, 2, 3} {
			ins := make([]io.ReadCloser, m)
			for i := range ins {
				ins[i] = g.src(enc)
			}
			if _, err := aes7z.NewReader(props, 16, ins); err == nil {
				g.violate("%s: %d input streams accepted", what, m)
			}
		}
	}
}
