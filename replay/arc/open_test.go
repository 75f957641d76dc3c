package sevenzip

// Opening: checksums (C05) and the search for the start of the archive (C06).

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"testing"
)

// simpleArc is a small stored archive: header bytes, packed bytes, contents.
func (g *gvRun) simpleArc() (header, packed []byte, names []string, contents [][]byte) {
	var arc gvArc
	n := 1 + g.rnd.IntN(4)
	var k int
	arc.packPos = uint64(g.rnd.IntN(3))
	packed = g.bytes(int(arc.packPos))
	for len(names) < n {
		m := 1 + g.rnd.IntN(n-len(names))
		var cs [][]byte
		for i := 0; i < m; i++ {
			c := g.bytes(1 + g.rnd.IntN(30))
			nm := fmt.Sprintf("f%d", k)
			k++
			cs = append(cs, c)
			names = append(names, nm)
			arc.files = append(arc.files, gvFile{name: nm, stream: true, mt: gvU64(g.rnd.Uint64N(1 << 57))})
		}
		f, p := gvCopyFolder(cs...)
		arc.folders = append(arc.folders, f)
		packed = append(packed, p...)
		contents = append(contents, cs...)
	}
	arc.subDigest = true
	arc.explicit = g.chance(2)
	return arc.header(), packed, names, contents
}

func gvHas(r *Reader, names []string, contents [][]byte) string {
	if len(r.File) != len(names) {
		return fmt.Sprintf("%d files, want %d", len(r.File), len(names))
	}
	for i, f := range r.File {
		if f.Name != names[i] {
			return fmt.Sprintf("file %d is %q, want %q", i, f.Name, names[i])
		}
		b, err := gvReadAll(f)
		if err != nil || !bytes.Equal(b, contents[i]) {
			return fmt.Sprintf("file %d reads as %x, %v; want %x", i, b, err, contents[i])
		}
	}
	return ""
}

// packedHeader wraps a header in a packed header of one folder of a stored or
// delta filtered stream; crc may be nil.
func (g *gvRun) packedHeader(header, packed []byte, crc *uint32) (eh, allPacked []byte) {
	var arc gvArc
	body := bytes.Clone(header)
	co := gvCoder{id: []byte{0}, in: 1, out: 1}
	if g.chance(2) {
		d := 1 + g.rnd.IntN(4)
		enc := make([]byte, len(body))
		for i := range body {
			enc[i] = body[i]
			if i >= d {
				enc[i] -= body[i-d]
			}
		}
		body = enc
		co = gvCoder{id: []byte{3}, in: 1, out: 1, props: []byte{byte(d - 1)}}
	}
	arc.packPos = uint64(len(packed))
	arc.folders = []gvFolder{{coders: []gvCoder{co}, sizes: []uint64{uint64(len(header))}, packs: []uint64{uint64(len(body))}, crc: crc}}
	arc.noSub = true
	return append([]byte{gvIDEncodedHeader}, arc.streamsInfo()...), append(bytes.Clone(packed), body...)
}

func TestGV_Checksums(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for g.more(500) {
		g.cases++
		g.guarded("opening", g.checksumCase)
	}
}

func (g *gvRun) checksumCase() {
	header, packed, names, contents := g.simpleArc()
	kind := g.rnd.IntN(4)
	top, all := header, packed
	var sum uint32
	switch kind {
	case 1:
		sum = crc32.ChecksumIEEE(header)
		top, all = g.packedHeader(header, packed, &sum)
	case 2: // no digest recorded
		top, all = g.packedHeader(header, packed, nil)
	}
	good := gvWrap(all, top)
	open := func(b []byte) (*Reader, error) { return gvOpen(b, "") }
	r, err := open(good)
	if err != nil {
		g.violate("a valid archive is refused: %v; archive %x", err, good)
	}
	if s := gvHas(r, names, contents); s != "" {
		g.violate("archive %x: %s", good, s)
	}
	refused := func(b []byte, why string) {
		if _, err := open(b); err == nil {
			g.violate("an archive opens although %s: %x", why, b)
		}
	}
	flip := func(at, bit int) []byte {
		b := bytes.Clone(good)
		b[at] ^= 1 << bit
		return b
	}
	for at := 8; at < 32; at++ {
		refused(flip(at, g.rnd.IntN(8)), fmt.Sprintf("a bit of byte %d of its start header was changed", at))
	}
	h0 := 32 + len(all)
	for k := 0; k < 40; k++ {
		at := h0 + g.rnd.IntN(len(top))
		refused(flip(at, g.rnd.IntN(8)), fmt.Sprintf("a bit of byte %d of its header was changed", at-h0))
	}
	if kind == 1 {
		for k := 0; k < 40; k++ {
			at := h0 - 1 - g.rnd.IntN(len(header))
			refused(flip(at, g.rnd.IntN(8)), "a bit of its packed header was changed")
		}
		// the recorded digest is not the one of the header
		wrong := sum ^ 1<<g.rnd.IntN(32)
		if wrong != 0 {
			t2, a2 := g.packedHeader(header, packed, &wrong)
			refused(gvWrap(a2, t2), fmt.Sprintf("the digest of its unpacked header is %08x, not %08x", sum, wrong))
		}
	}
	// left over bytes, with right checksums
	extra := g.bytes(1 + g.rnd.IntN(3))
	if g.chance(2) {
		extra = make([]byte, 1+g.rnd.IntN(3))
	}
	refused(gvWrap(all, append(bytes.Clone(top), extra...)), fmt.Sprintf("its header is followed by %x", extra))
	// only part of the header is there
	for _, more := range []uint64{1, 1 + g.rnd.Uint64N(5000), 1 << 32, 1 << 63, -uint64(len(top))} {
		b := bytes.Clone(good)
		binary.LittleEndian.PutUint64(b[20:], uint64(len(top))+more)
		binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
		refused(b, fmt.Sprintf("only %d bytes of its header of %d are there", len(top), uint64(len(top))+more))
	}
	// wrong checksums of the whole
	b := bytes.Clone(good)
	binary.LittleEndian.PutUint32(b[28:], binary.LittleEndian.Uint32(b[28:])^(1+g.rnd.Uint32N(1<<32-1)))
	binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
	refused(b, "the checksum of its header is wrong")
	// the stored checksum is zero or that of nothing
	for _, v := range []uint32{0, 0xffffffff, crc32.ChecksumIEEE(b[12:31])} {
		b := bytes.Clone(good)
		if binary.LittleEndian.Uint32(b[8:]) != v {
			binary.LittleEndian.PutUint32(b[8:], v)
			refused(b, fmt.Sprintf("the checksum of its start header is stored as %08x", v))
		}
		b = bytes.Clone(good)
		if binary.LittleEndian.Uint32(b[28:]) != v {
			binary.LittleEndian.PutUint32(b[28:], v)
			binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
			refused(b, fmt.Sprintf("the checksum of its header is stored as %08x", v))
		}
	}
	if g.cases%40 == 1 { // every bit of the covered bytes
		for at := 8; at < len(good); at++ {
			if at >= 32 && at < h0 {
				continue
			}
			for bit := 0; bit < 8; bit++ {
				refused(flip(at, bit), fmt.Sprintf("bit %d of byte %d was changed", bit, at))
			}
		}
	}
	// the version does not matter
	b = bytes.Clone(good)
	b[6], b[7] = g.bytes(1)[0], g.bytes(1)[0]
	if _, err := open(b); err != nil {
		g.violate("an archive of version %d.%d is refused: %v", b[6], b[7], err)
	}
	// trailing garbage does not matter
	if _, err := open(append(bytes.Clone(good), g.bytes(1+g.rnd.IntN(50))...)); err != nil {
		g.violate("an archive followed by other data is refused: %v", err)
	}
}

// gvAt is an io.ReaderAt with each of the permitted ways to end.
type gvAt struct {
	b    []byte
	mode int
	size int64
}

func (r *gvAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	switch {
	case n < len(p) && r.mode == 2:
		return n, io.ErrUnexpectedEOF // as readers of several volumes do
	case n < len(p):
		return n, io.EOF
	case off+int64(n) == int64(len(r.b)) && r.mode == 1:
		return n, io.EOF
	}
	return n, nil
}

var gvSig = []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c}

func TestGV_Search(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for g.more(1500) {
		g.cases++
		g.guarded("searching", g.searchCase)
	}
}

func (g *gvRun) searchCase() {
	var at int
	switch g.rnd.IntN(8) {
	case 0:
		at = 0
	case 1:
		at = 1 + g.rnd.IntN(40)
	case 2, 3:
		at = 4096*(1+g.rnd.IntN(6)) - 8 + g.rnd.IntN(16)
	case 4, 5:
		at = 1 + g.rnd.IntN(30000)
	case 6:
		at = 1<<20 - 1 - g.rnd.IntN(9000)
		if g.chance(2) {
			at = 1<<20 - 1 - g.rnd.IntN(12)
		}
	case 7:
		at = 4096*(1+g.rnd.IntN(255)) - 8 + g.rnd.IntN(16)
	}
	prefix := g.bytes(at)
	for i := range prefix {
		if prefix[i] == '7' {
			prefix[i] = '8' // no signature by chance
		}
	}
	header, packed, names, contents := g.simpleArc()
	b := append(prefix, gvWrap(packed, header)...)
	b = append(b, make([]byte, g.rnd.IntN(40))...)
	what := fmt.Sprintf("archive at offset %d", at)
	decoy := func(p int, kind int) {
		copy(b[p:], gvSig)
		what += fmt.Sprintf(", signature at %d", p)
		if kind == 1 { // a start header with a checksum off by one bit
			copy(b[p+6:], b[at+6:at+32])
			b[p+8+g.rnd.IntN(4)] ^= 1 << g.rnd.IntN(8)
		}
	}
	if at > 0 && g.chance(2) {
		for k := g.rnd.IntN(4); k >= 0; k-- {
			p := 0
			if at > 40 {
				p = g.rnd.IntN(at - 38)
				if g.chance(2) {
					p = min(4096*(1+g.rnd.IntN(8))-8+g.rnd.IntN(16), at-38)
				}
			} else {
				break
			}
			if p == 0 || bytes.Contains(b[max(0, p-32):min(len(b), p+38)], gvSig) {
				continue
			}
			decoy(p, g.rnd.IntN(2))
		}
		// a partial signature just before
		if at > 80 && g.chance(2) {
			k := 1 + g.rnd.IntN(5)
			if !bytes.Contains(b[at-k-38:at], gvSig) {
				copy(b[at-k:], gvSig[:k])
				what += fmt.Sprintf(", %d bytes of a signature before it", k)
			}
		}
	}
	src := &gvAt{b: b, mode: g.rnd.IntN(3)}
	r, err := NewReader(src, int64(len(b)))
	if err != nil {
		g.violate("%s (%d bytes): %v", what, len(b), err)
	}
	if s := gvHas(r, names, contents); s != "" {
		g.violate("%s: %s", what, s)
	}
	switch g.rnd.IntN(4) {
	case 0: // a second archive behind does not matter
		h2, p2, _, _ := g.simpleArc()
		b2 := append(bytes.Clone(b), gvWrap(p2, h2)...)
		r, err := NewReader(&gvAt{b: b2, mode: g.rnd.IntN(3)}, int64(len(b2)))
		if err != nil {
			g.violate("%s, and a second one: %v", what, err)
		}
		if s := gvHas(r, names, contents); s != "" {
			g.violate("%s, and a second one: %s", what, s)
		}
	case 1: // without the signature
		b2 := bytes.ReplaceAll(b, gvSig, []byte("8z\xbc\xaf\x27\x1c"))
		if _, err := NewReader(&gvAt{b: b2, mode: g.rnd.IntN(3)}, int64(len(b2))); err == nil {
			g.violate("a file without any signature opens")
		}
	case 2: // beyond the limit
		pad := make([]byte, 1<<20+1+g.rnd.IntN(5000))
		h2, p2, _, _ := g.simpleArc()
		b2 := append(pad, gvWrap(p2, h2)...)
		if g.chance(2) {
			copy(b2[1+g.rnd.IntN(1<<19):], gvSig)
		}
		if _, err := NewReader(&gvAt{b: b2, mode: g.rnd.IntN(3)}, int64(len(b2))); err == nil {
			g.violate("an archive at %d, beyond the search limit, is found", len(pad))
		}
	case 3: // a signature at the start is the only one considered
		if at > 64 {
			b2 := bytes.Clone(b)
			copy(b2, gvSig)
			if bytes.Index(b2[1:], gvSig) >= 32 {
				if r, err := NewReader(&gvAt{b: b2, mode: g.rnd.IntN(3)}, int64(len(b2))); err == nil {
					g.violate("%s and a signature at the very start: opens with %d files", what, len(r.File))
				}
			}
		}
	}
}
