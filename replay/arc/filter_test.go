package sevenzip

// Filters, BCJ2 and AES against independent reference implementations, with
// random splits of the source and of the reads.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/bodgit/sevenzip/internal/aes7z"
	"github.com/bodgit/sevenzip/internal/bcj2"
	"github.com/bodgit/sevenzip/internal/bra"
	"github.com/bodgit/sevenzip/internal/delta"
)

var errGV = errors.New("gv: source failed")

// gvSrc delivers data in pieces chosen by cut and then err.
type gvSrc struct {
	data    []byte
	err     error
	cut     func(max int) int
	tail    bool // deliver err along with the last bytes
	closed  int
	closeEr error
}

func (s *gvSrc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := min(len(p), len(s.data))
	if s.cut != nil {
		n = s.cut(n)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.tail {
		return n, s.err
	}
	return n, nil
}

func (s *gvSrc) Close() error { s.closed++; return s.closeEr }

func (g *gvRun) cutter() func(int) int {
	switch g.rnd.IntN(5) {
	case 0:
		return nil
	case 1:
		return func(int) int { return 1 }
	case 2:
		k := 1 + g.rnd.IntN(7)
		return func(m int) int { return min(k, m) }
	}
	return func(m int) int { return 1 + g.rnd.IntN(m) }
}

func (g *gvRun) src(b []byte) *gvSrc {
	return &gvSrc{data: b, err: io.EOF, cut: g.cutter(), tail: g.chance(3)}
}

// readAll reads r with random sizes; at most limit bytes.
func (g *gvRun) readAll(r io.Reader) (out []byte, err error, note string) {
	idle := 0
	sizer := g.cutter()
	top := []int{1, 3, 8, 40, 700, 5000}[g.rnd.IntN(6)]
	for {
		n := top
		if sizer != nil {
			n = sizer(top)
		}
		p := make([]byte, n+8)
		for i := range p {
			p[i] = 0xa5
		}
		m, e := r.Read(p[:n:n])
		if m < 0 || m > n {
			return out, e, fmt.Sprintf("Read returned count %d for a buffer of %d", m, n)
		}
		out = append(out, p[:m]...)
		if e != nil {
			return out, e, ""
		}
		if m == 0 {
			if idle++; idle > 50 {
				return out, nil, "no progress: Read keeps returning 0, nil"
			}
		} else {
			idle = 0
		}
	}
}

// ------------------------------------------------------------- references

func gvARM(b []byte, enc bool) {
	for i := 0; i+4 <= len(b); i += 4 {
		if b[i+3] == 0xeb {
			v := uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16
			v <<= 2
			if enc {
				v += uint32(i) + 8
			} else {
				v -= uint32(i) + 8
			}
			v >>= 2
			b[i], b[i+1], b[i+2] = byte(v), byte(v>>8), byte(v>>16)
		}
	}
}

func gvPPC(b []byte, enc bool) {
	for i := 0; i+4 <= len(b); i += 4 {
		v := binary.BigEndian.Uint32(b[i:])
		if v&0xfc000003 == 0x48000001 {
			a := v & 0x03fffffc
			if enc {
				a += uint32(i)
			} else {
				a -= uint32(i)
			}
			binary.BigEndian.PutUint32(b[i:], 0x48000001|a&0x03fffffc)
		}
	}
}

func gvSPARC(b []byte, enc bool) {
	for i := 0; i+4 <= len(b); i += 4 {
		if b[i] == 0x40 && b[i+1]&0xc0 == 0 || b[i] == 0x7f && b[i+1]&0xc0 == 0xc0 {
			s := binary.BigEndian.Uint32(b[i:]) << 2
			var d uint32
			if enc {
				d = uint32(i) + s
			} else {
				d = s - uint32(i)
			}
			d >>= 2
			d = ((0-((d>>22)&1))<<22)&0x3fffffff | d&0x3fffff | 0x40000000
			binary.BigEndian.PutUint32(b[i:], d)
		}
	}
}

func gvARM64(b []byte, enc bool) {
	for i := 0; i+4 <= len(b); i += 4 {
		v := binary.LittleEndian.Uint32(b[i:])
		pc := uint32(i)
		if v>>26 == 0x25 {
			c := pc >> 2
			if !enc {
				c = -c
			}
			binary.LittleEndian.PutUint32(b[i:], 0x94000000|(v+c)&0x03ffffff)
			continue
		}
		if v&0x9f000000 == 0x90000000 {
			// ADRP with a 21 bit page number; only +-2^17 pages are converted
			imm := (v>>29)&3 | (v>>3)&0x1ffffc
			if (imm+0x20000)&0x1c0000 != 0 {
				continue
			}
			c := pc >> 12
			if !enc {
				c = -c
			}
			imm += c
			w := uint32(0x90000000) | v&0x1f | (imm&3)<<29 | (imm&0x3fffc)<<3
			w |= (0 - (imm & 0x20000)) & 0x00e00000
			binary.LittleEndian.PutUint32(b[i:], w)
		}
	}
}

// gvX86 is the classic Bra86 conversion over a complete buffer.
func gvX86(data []byte, enc bool) {
	ms := func(b byte) bool { return b == 0 || b == 0xff }
	allowed := [8]bool{true, true, true, false, true, false, false, false}
	number := [8]byte{0, 1, 2, 2, 3, 3, 3, 3}
	if len(data) < 5 {
		return
	}
	var prevMask uint32
	prevPos := -1
	ip := uint32(5)
	for pos := 0; pos <= len(data)-5; {
		if data[pos]&0xfe != 0xe8 {
			pos++
			continue
		}
		if gap := pos - prevPos; gap > 3 {
			prevMask = 0
		} else {
			prevMask = (prevMask << uint(gap-1)) & 7
			if prevMask != 0 {
				b := data[pos+4-int(number[prevMask])]
				if !allowed[prevMask] || ms(b) {
					prevPos = pos
					prevMask = (prevMask<<1)&7 | 1
					pos++
					continue
				}
			}
		}
		prevPos = pos
		if ms(data[pos+4]) {
			src := binary.LittleEndian.Uint32(data[pos+1:])
			var dest uint32
			for {
				if enc {
					dest = ip + uint32(pos) + src
				} else {
					dest = src - (ip + uint32(pos))
				}
				if prevMask == 0 {
					break
				}
				sh := uint32(number[prevMask]) * 8
				if !ms(byte(dest >> (24 - sh))) {
					break
				}
				src = dest ^ (1<<(32-sh) - 1)
			}
			data[pos+4] = byte(^(((dest >> 24) & 1) - 1))
			data[pos+3], data[pos+2], data[pos+1] = byte(dest>>16), byte(dest>>8), byte(dest)
			pos += 5
			prevMask = 0
			prevPos = pos - 1
		} else {
			prevMask = (prevMask<<1)&7 | 1
			pos++
		}
	}
}

func gvDelta(b []byte, d int) []byte {
	o := bytes.Clone(b)
	for i := d; i < len(o); i++ {
		o[i] += o[i-d]
	}
	return o
}

// code generates bytes dense in branch instructions.
func (g *gvRun) code(n int) []byte {
	b := g.bytes(n)
	for k := g.rnd.IntN(n/2 + 1); k > 0 && n >= 4; k-- {
		i := g.rnd.IntN(n)
		if !g.chance(4) {
			i &^= 3
		}
		put := func(o int, v byte) {
			if i+o < n {
				b[i+o] = v
			}
		}
		switch g.rnd.IntN(9) {
		case 0:
			put(3, 0xeb)
		case 1:
			put(0, 0x48|byte(g.rnd.IntN(4)))
			put(3, byte(g.rnd.IntN(64)<<2|1))
		case 2:
			put(0, 0x40)
			put(1, byte(g.rnd.IntN(64)))
		case 3:
			put(0, 0x7f)
			put(1, 0xc0|byte(g.rnd.IntN(64)))
		case 4:
			put(3, 0x94|byte(g.rnd.IntN(4)))
		case 5:
			put(3, 0x90|byte(g.rnd.IntN(4)<<5))
			put(2, []byte{0, 0xff, 0x0f, 0xf0, 0x1f, 0xe0}[g.rnd.IntN(6)])
		default:
			i = g.rnd.IntN(n)
			put(0, 0xe8|byte(g.rnd.IntN(2)))
			if !g.chance(3) {
				put(4, byte(0-g.rnd.IntN(2)))
			}
			if g.chance(2) {
				put(1+g.rnd.IntN(4), 0xe8|byte(g.rnd.IntN(2)))
			}
			if g.chance(2) {
				put(1+g.rnd.IntN(4), byte(0-g.rnd.IntN(2)))
			}
		}
	}
	return b
}

func (g *gvRun) size() int {
	switch g.rnd.IntN(8) {
	case 0:
		return g.rnd.IntN(9)
	case 1:
		return 3000 + g.rnd.IntN(9000)
	}
	return g.rnd.IntN(200)
}

type gvFilter struct {
	name string
	mk   Decompressor
	ref  func([]byte, bool)
}

func gvFilters() []gvFilter {
	return []gvFilter{
		{"ARM", bra.NewARMReader, gvARM}, {"PPC", bra.NewPPCReader, gvPPC}, {"SPARC", bra.NewSPARCReader, gvSPARC},
		{"ARM64", bra.NewARM64Reader, gvARM64}, {"BCJ", bra.NewBCJReader, gvX86},
	}
}

// run decodes in with mk and compares with want.
func (g *gvRun) filterRun(name string, mk func(src *gvSrc) (io.ReadCloser, error), in, want []byte) {
	src := g.src(in)
	fail := false
	if g.chance(6) && len(in) > 0 {
		// the source fails part way
		fail = true
		src.data = in[:g.rnd.IntN(len(in)+1)]
		src.err = errGV
		src.tail = false
	}
	rc, err := mk(src)
	if err != nil {
		if fail {
			return
		}
		g.violate("%s: creating the reader for %s: %v", name, gvHex(in), err)
	}
	got, err, note := g.readAll(rc)
	switch {
	case note != "":
		g.violate("%s on %s: %s", name, gvHex(in), note)
	case !bytes.HasPrefix(want, got):
		g.violate("%s on %s delivers %s, want %s", name, gvHex(in), gvHex(got), gvHex(want))
	case fail && (err == io.EOF || !errors.Is(err, errGV)):
		g.violate("%s on %s with a source failing after %d bytes: reading ends with %v, want the source's error", name, gvHex(in), len(in), err)
	case !fail && err != io.EOF:
		g.violate("%s on %s: reading fails: %v", name, gvHex(in), err)
	case !fail && len(got) != len(want):
		g.violate("%s on %s delivers only %s, want %s", name, gvHex(in), gvHex(got), gvHex(want))
	}
	if !fail {
		if n, err := rc.Read(make([]byte, 8)); n != 0 || err != io.EOF {
			g.violate("%s on %s: reading after the end returns %d, %v", name, gvHex(in), n, err)
		}
	}
}

func TestGV_Branch(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	fs := gvFilters()
	for g.more(40000) {
		g.cases++
		f := fs[g.rnd.IntN(len(fs))]
		in := g.code(g.size())
		want := bytes.Clone(in)
		f.ref(want, false)
		g.guarded(f.name, func() {
			g.filterRun(f.name, func(s *gvSrc) (io.ReadCloser, error) { return f.mk(nil, uint64(len(in)), []io.ReadCloser{s}) }, bytes.Clone(in), want)
		})
		if f.name != "BCJ" {
			enc := bytes.Clone(in)
			f.ref(enc, true)
			back := bytes.Clone(enc)
			f.ref(back, false)
			if !bytes.Equal(back, in) {
				g.violate("the reference of %s does not invert %s", f.name, gvHex(in))
			}
		}
	}
}

func TestGV_Delta(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for g.more(20000) {
		g.cases++
		d := 1 + g.rnd.IntN(256)
		if g.chance(3) {
			d = []int{1, 2, 3, 4, 8, 255, 256}[g.rnd.IntN(7)]
		}
		in := g.bytes(g.rnd.IntN(900))
		g.guarded("Delta", func() {
			g.filterRun(fmt.Sprintf("Delta(%d)", d), func(s *gvSrc) (io.ReadCloser, error) {
				return delta.NewReader([]byte{byte(d - 1)}, uint64(len(in)), []io.ReadCloser{s})
			}, bytes.Clone(in), gvDelta(in, d))
		})
	}
}

// ------------------------------------------------------------------- BCJ2

// gvBCJ2 is the reference decoder; ok is false when a call or jump stream
// ends too early (out is then what precedes the missing address).
func gvBCJ2(main, call, jump, rd []byte) (out []byte, ok bool) {
	var p [258]uint32
	for i := range p {
		p[i] = 1024
	}
	next := func() (b uint32) {
		if len(rd) > 0 {
			b, rd = uint32(rd[0]), rd[1:]
		}
		return
	}
	var code uint32
	rng := uint32(0xffffffff)
	for i := 0; i < 5; i++ {
		code = code<<8 | next()
	}
	prev := byte(0)
	for len(main) > 0 {
		b := main[0]
		main = main[1:]
		out = append(out, b)
		jcc := prev == 0x0f && b&0xf0 == 0x80
		if b&0xfe != 0xe8 && !jcc {
			prev = b
			continue
		}
		k := 257
		if b == 0xe8 {
			k = int(prev)
		} else if b == 0xe9 {
			k = 256
		}
		bound := (rng >> 11) * p[k]
		bit := code >= bound
		if bit {
			rng -= bound
			code -= bound
			p[k] -= p[k] >> 5
		} else {
			rng = bound
			p[k] += (2048 - p[k]) >> 5
		}
		if rng < 1<<24 {
			rng <<= 8
			code = code<<8 | next()
		}
		if !bit {
			prev = b
			continue
		}
		s := &jump
		if b == 0xe8 {
			s = &call
		}
		if len(*s) < 4 {
			return out, false
		}
		dest := binary.BigEndian.Uint32(*s) - (uint32(len(out)) + 4)
		*s = (*s)[4:]
		out = binary.LittleEndian.AppendUint32(out, dest)
		prev = byte(dest >> 24)
	}
	return out, true
}

func TestGV_BCJ2(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for g.more(12000) {
		g.cases++
		n := g.size()
		if g.chance(40) {
			n = 60000 + g.rnd.IntN(80000)
		}
		main := g.bytes(n)
		dense := 2 + g.rnd.IntN(30)
		for i := range main {
			if g.chance(dense) {
				switch g.rnd.IntN(4) {
				case 0:
					main[i] = 0xe8
				case 1:
					main[i] = 0xe9
				case 2:
					main[i] = 0x80 | main[i]&15
					if i > 0 {
						main[i-1] = 0x0f
					}
				case 3:
					if i > 0 {
						main[i-1] = byte(g.rnd.IntN(3))
					}
					main[i] = 0xe8
				}
			}
		}
		call, jump := g.bytes(4*n+4), g.bytes(4*n+4)
		if g.chance(2) {
			call = call[:g.rnd.IntN(min(len(call), 60))]
		}
		if g.chance(2) {
			jump = jump[:g.rnd.IntN(min(len(jump), 60))]
		}
		rd := append([]byte{0}, g.bytes(4+g.rnd.IntN(n+1))...)
		if g.chance(3) {
			rd[1] = byte(g.rnd.IntN(3)) // mostly unset flags
		} else if g.chance(2) {
			rd[1], rd[2] = 0xff, 0xf0
		}
		if rd[1] == 0xff && rd[2] == 0xff {
			rd[2] = 0
		}
		want, ok := gvBCJ2(main, call, jump, rd)
		var got []byte
		var err error
		var note string
		g.guarded("BCJ2", func() {
			var rc io.ReadCloser
			rc, err = bcj2.NewReader(nil, uint64(len(want)), []io.ReadCloser{g.src(bytes.Clone(main)), g.src(call), g.src(jump), g.src(rd)})
			if err == nil {
				got, err, note = g.readAll(rc)
			}
		})
		in := fmt.Sprintf("BCJ2(main=%s call=%s jump=%s rd=%s)", gvHex(main), gvHex(call), gvHex(jump), gvHex(rd))
		switch {
		case note != "":
			g.violate("%s: %s", in, note)
		case !bytes.HasPrefix(want, got):
			g.violate("%s: delivers %s, want %s", in, gvHex(got), gvHex(want))
		case ok && (err != io.EOF || len(got) != len(want)):
			g.violate("%s: delivers %d bytes and %v, want %d and EOF", in, len(got), err, len(want))
		case !ok && (err == io.EOF || err == nil):
			g.violate("%s: ends cleanly although a call or jump stream is too short", in)
		}
	}
}

// -------------------------------------------------------------------- AES

func TestGV_AESChunks(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	key := make([]byte, 32)
	copy(key, gvUTF16("pässwort"))
	blk, _ := aes.NewCipher(key)
	for g.more(15000) {
		g.cases++
		n := g.rnd.IntN(40) * 16
		if g.chance(10) {
			n = 6000 / 16 * 16
		}
		plain, iv := g.bytes(n), g.bytes(16)
		enc := make([]byte, n)
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(enc, plain)
		part := 0
		if g.chance(5) && n > 0 {
			part = 1 + g.rnd.IntN(15)
			enc = append(enc, g.bytes(part)...)
		}
		props := append([]byte{0x40 | 0x3f, 0x0f}, iv...)
		what := fmt.Sprintf("AES on %s iv %x", gvHex(enc), iv)
		mk := func(s *gvSrc) (io.ReadCloser, error) {
			rc, err := aes7z.NewReader(props, uint64(len(enc)), []io.ReadCloser{s})
			if err == nil {
				err = rc.(CryptoReadCloser).Password("pässwort")
			}
			return rc, err
		}
		g.guarded(what, func() {
			if part == 0 {
				g.filterRun(what, mk, enc, plain)
				return
			}
			rc, err := mk(g.src(enc))
			if err != nil {
				g.violate("%s: %v", what, err)
			}
			got, err, note := g.readAll(rc)
			if note != "" || !bytes.HasPrefix(plain, got) || err == io.EOF || err == nil {
				g.violate("%s with a partial last block: delivers %s and %v %s", what, gvHex(got), err, note)
			}
		})
	}
}
