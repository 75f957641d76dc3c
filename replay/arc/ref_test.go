package sevenzip

// An independent decoder of 7z headers, and the comparison of what the reader
// lists for (mutated) headers with it.

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"
	"unicode/utf16"
)

type gvRef struct {
	b []byte
	p int
}

type gvReject string

func (r *gvRef) fail(why string) { panic(gvReject(why)) }

func (r *gvRef) byte() byte {
	if r.p >= len(r.b) {
		r.fail("truncated")
	}
	r.p++
	return r.b[r.p-1]
}

func (r *gvRef) take(n uint64) []byte {
	if n > uint64(len(r.b)-r.p) {
		r.fail("truncated")
	}
	r.p += int(n)
	return r.b[r.p-int(n) : r.p]
}

func (r *gvRef) num() uint64 {
	b := r.byte()
	n, mask := 0, byte(0x80)
	for mask != 0 && b&mask != 0 {
		n++
		mask >>= 1
	}
	var v uint64
	for i := 0; i < n; i++ {
		v |= uint64(r.byte()) << (8 * i)
	}
	if n < 8 {
		v |= uint64(b&(mask-1)) << (8 * n)
	}
	return v
}

func (r *gvRef) count(nonZero bool) uint64 {
	v := r.num()
	if v > 0xffffffff || nonZero && v == 0 {
		r.fail("count")
	}
	// counts beyond the data cannot be satisfied by anything that follows
	return v
}

func (r *gvRef) bits(n uint64) []bool {
	if n == 0 {
		r.fail("zero")
	}
	b := r.take((n + 7) / 8)
	out := make([]bool, n)
	for i := range out {
		out[i] = b[i/8]>>(7-i%8)&1 == 1
	}
	return out
}

func (r *gvRef) optBits(n uint64) []bool {
	if n == 0 {
		r.fail("zero")
	}
	if r.byte() == 0 {
		return r.bits(n)
	}
	if n > 1<<22 {
		r.fail("huge")
	}
	out := make([]bool, n)
	for i := range out {
		out[i] = true
	}
	return out
}

func (r *gvRef) digests(n uint64) []uint32 {
	d := r.optBits(n)
	out := make([]uint32, n)
	for i := range d {
		if d[i] {
			out[i] = binary.LittleEndian.Uint32(r.take(4))
		}
	}
	return out
}

type gvRefFolder struct {
	coders  []gvCoder
	in, out uint64
	binds   [][2]uint64
	packed  []uint64
	sizes   []uint64
	digest  uint32
}

func (f *gvRefFolder) size() uint64 {
	for i := len(f.sizes) - 1; i >= 0; i-- {
		bound := false
		for _, b := range f.binds {
			bound = bound || b[1] == uint64(i)
		}
		if !bound {
			return f.sizes[i]
		}
	}
	return f.sizes[len(f.sizes)-1]
}

type gvRefHeader struct {
	packPos   uint64
	packSizes []uint64
	hasPack   bool
	folders   []gvRefFolder
	hasFolder bool
	digests   bool
	hasSub    bool
	subs      []uint64
	subSizes  []uint64
	subCRC    []uint32
	files     []FileHeader
	hasFiles  bool
}

func (r *gvRef) pack(h *gvRefHeader) {
	h.hasPack = true
	h.packPos = r.num()
	n := r.count(true)
	id := r.byte()
	if id == gvIDSize {
		for i := uint64(0); i < n; i++ {
			h.packSizes = append(h.packSizes, r.num())
		}
		id = r.byte()
	}
	if id == gvIDCRC {
		r.digests(n)
		id = r.byte()
	}
	if id != gvIDEnd {
		r.fail("pack end")
	}
}

func (r *gvRef) folder() (f gvRefFolder) {
	n := r.count(true)
	for i := uint64(0); i < n; i++ {
		var c gvCoder
		fl := r.byte()
		c.id = r.take(uint64(fl & 15))
		c.in, c.out = 1, 1
		if fl&0x10 != 0 {
			c.in, c.out = r.count(true), r.count(true)
		}
		if fl&0x20 != 0 {
			c.props = r.take(r.count(true))
		}
		f.coders = append(f.coders, c)
		f.in += c.in
		f.out += c.out
	}
	if f.in > 0xffffffff || f.out > 0xffffffff || f.in < f.out {
		r.fail("streams")
	}
	bound := map[uint64]bool{}
	for i := uint64(1); i < f.out; i++ {
		in, out := r.count(false), r.count(false)
		if in >= f.in || out >= f.out {
			r.fail("bind")
		}
		bound[in] = true
		f.binds = append(f.binds, [2]uint64{in, out})
	}
	np := f.in - (f.out - 1)
	if np == 1 {
		if f.in > 1<<22 {
			r.fail("huge")
		}
		for i := uint64(0); i < f.in; i++ {
			if !bound[i] {
				f.packed = append(f.packed, i)
			}
		}
		if len(f.packed) != 1 {
			r.fail("bind")
		}
	} else {
		for i := uint64(0); i < np; i++ {
			v := r.num()
			if v >= f.in {
				r.fail("packed")
			}
			f.packed = append(f.packed, v)
		}
	}
	return f
}

func (r *gvRef) unpack(h *gvRefHeader) {
	h.hasFolder = true
	if r.byte() != gvIDFolder {
		r.fail("folder")
	}
	n := r.count(true)
	if r.byte() != 0 {
		r.fail("external")
	}
	for i := uint64(0); i < n; i++ {
		h.folders = append(h.folders, r.folder())
	}
	if r.byte() != gvIDCodersUnpackSize {
		r.fail("sizes")
	}
	for i := range h.folders {
		for j := uint64(0); j < h.folders[i].out; j++ {
			h.folders[i].sizes = append(h.folders[i].sizes, r.num())
		}
	}
	id := r.byte()
	if id == gvIDCRC {
		h.digests = true
		for i, d := range r.digests(n) {
			h.folders[i].digest = d
		}
		id = r.byte()
	}
	if id != gvIDEnd {
		r.fail("unpack end")
	}
}

func (r *gvRef) sub(h *gvRefHeader) {
	if !h.hasFolder {
		r.fail("no folders")
	}
	h.hasSub = true
	id := r.byte()
	if id == gvIDNumUnpackStream {
		for range h.folders {
			h.subs = append(h.subs, r.count(false))
		}
		id = r.byte()
	} else {
		for range h.folders {
			h.subs = append(h.subs, 1)
		}
	}
	total := uint64(0)
	for _, n := range h.subs {
		total += n
	}
	if total > 0xffffffff {
		r.fail("count")
	}
	if id == gvIDSize {
		for i, n := range h.subs {
			left := h.folders[i].size()
			for j := uint64(0); j < n; j++ {
				s := left
				if j+1 < n {
					s = r.num()
				}
				if s > left {
					r.fail("substreams too large")
				}
				left -= s
				h.subSizes = append(h.subSizes, s)
			}
		}
		id = r.byte()
	} else {
		for _, n := range h.subs {
			if n > 1 {
				r.fail("no sizes")
			}
		}
	}
	if id == gvIDCRC {
		h.subCRC = r.digests(total)
		id = r.byte()
	}
	if id != gvIDEnd {
		r.fail("sub end")
	}
}

func (r *gvRef) streams(h *gvRefHeader) {
	id := r.byte()
	if id == gvIDPackInfo {
		r.pack(h)
		id = r.byte()
	}
	if id == gvIDUnpackInfo {
		r.unpack(h)
		id = r.byte()
	}
	if id == gvIDSubStreamsInfo {
		r.sub(h)
		id = r.byte()
	}
	if id != gvIDEnd {
		r.fail("streams end")
	}
	if h.hasFolder {
		n := 0
		for _, f := range h.folders {
			n += len(f.packed)
		}
		if !h.hasPack || n > len(h.packSizes) {
			r.fail("packed streams")
		}
	}
}

func (r *gvRef) external() {
	if r.byte() != 0 {
		r.fail("external")
	}
}

func (r *gvRef) filesInfo(h *gvRefHeader) {
	h.hasFiles = true
	n := r.count(true)
	if n > 1<<22 {
		r.fail("huge")
	}
	h.files = make([]FileHeader, n)
	empties := uint64(0)
	for {
		id := r.byte()
		if id == gvIDEnd {
			break
		}
		length := r.num()
		switch id {
		case gvIDEmptyStream:
			empties = 0
			for i, b := range r.bits(n) {
				h.files[i].isEmptyStream, h.files[i].isEmptyFile = b, false
				if b {
					empties++
				}
			}
		case gvIDEmptyFile:
			bs := r.bits(empties)
			for i := range h.files {
				if h.files[i].isEmptyStream {
					h.files[i].isEmptyFile = bs[0]
					bs = bs[1:]
				}
			}
		case gvIDCTime, gvIDATime, gvIDMTime:
			def := r.optBits(n)
			r.external()
			for i := range h.files {
				t := &h.files[i].Created
				if id == gvIDATime {
					t = &h.files[i].Accessed
				} else if id == gvIDMTime {
					t = &h.files[i].Modified
				}
				var zero FileHeader
				*t = zero.Created
				if def[i] {
					*t = gvFiletime(binary.LittleEndian.Uint64(r.take(8)))
				}
			}
		case gvIDWinAttributes:
			def := r.optBits(n)
			r.external()
			for i := range h.files {
				h.files[i].Attributes = 0
				if def[i] {
					h.files[i].Attributes = binary.LittleEndian.Uint32(r.take(4))
				}
			}
		case gvIDName:
			r.external()
			if length == 0 || length-1 > uint64(len(r.b)-r.p) {
				r.fail("names")
			}
			b := r.take(length - 1)
			if len(b)%2 != 0 {
				r.fail("names?") // unspecified: not compared
			}
			var u []uint16
			k := 0
			for i := 0; i < len(b); i += 2 {
				c := binary.LittleEndian.Uint16(b[i:])
				if c != 0 {
					u = append(u, c)
					continue
				}
				if k == len(h.files) {
					r.fail("too many names")
				}
				h.files[k].Name = string(utf16.Decode(u))
				if strings.ContainsRune(h.files[k].Name, 0xfffd) {
					r.fail("names?") // ill-formed UTF-16: the replacement is unspecified
				}
				if len(h.files[k].Name) > 60000 {
					r.fail("names?")
				}
				k++
				u = nil
			}
			if len(u) > 0 {
				r.fail("names?") // last name not terminated
			}
			if k != len(h.files) {
				r.fail("too few names")
			}
		case gvIDDummy:
			r.take(length)
		default:
			r.fail("property")
		}
	}
}

func (r *gvRef) header(h *gvRefHeader) {
	if r.byte() != gvIDHeader {
		r.fail("id")
	}
	id := r.byte()
	if id == gvIDMainStreamsInfo {
		r.streams(h)
		id = r.byte()
	}
	if id == gvIDFilesInfo {
		r.filesInfo(h)
		id = r.byte()
	}
	if id != gvIDEnd {
		r.fail("header end")
	}
	if r.p != len(r.b) {
		r.fail("trailing data")
	}
	// distribute the substreams
	type sub struct {
		folder int
		size   uint64
		crc    uint32
	}
	var subs []sub
	for i, f := range h.folders {
		n := uint64(1)
		if h.hasSub {
			n = h.subs[i]
		}
		for j := uint64(0); j < n; j++ {
			s := sub{folder: i, size: f.size()}
			if n > 1 {
				s.size = h.subSizes[len(subs)]
			}
			if h.subCRC != nil {
				s.crc = h.subCRC[len(subs)]
			}
			if n == 1 && h.digests {
				s.crc = f.digest
			}
			subs = append(subs, s)
		}
	}
	k := 0
	for i := range h.files {
		f := &h.files[i]
		if !f.isEmptyStream {
			if k >= len(subs) {
				r.fail("more files than streams")
			}
			f.Stream, f.UncompressedSize, f.CRC32 = subs[k].folder, subs[k].size, subs[k].crc
			k++
		}
		dir := f.Attributes&0x10 != 0
		if f.Attributes&0xf0000000 != 0 {
			dir = f.Attributes>>28 == 4
		}
		if dir && (f.Name == "" || f.Name[len(f.Name)-1] != '/') {
			f.Name += "/"
		}
	}
}

// gvRefDecode returns the header, or why it has to be refused.
func gvRefDecode(b []byte) (h *gvRefHeader, why string) {
	h = new(gvRefHeader)
	defer func() {
		if e := recover(); e != nil {
			if g, ok := e.(gvReject); ok {
				h, why = nil, string(g)
				return
			}
			panic(e)
		}
	}()
	(&gvRef{b: b}).header(h)
	return h, ""
}

func (g *gvRun) mutate(h []byte) []byte {
	h = append([]byte(nil), h...)
	for n := 1 + g.rnd.IntN(2); n > 0 && len(h) > 0; n-- {
		i := g.rnd.IntN(len(h))
		switch g.rnd.IntN(8) {
		case 0:
			h[i] ^= 1 << g.rnd.IntN(8)
		case 1:
			h[i] = byte(g.rnd.IntN(26))
		case 2:
			h = append(h[:i], h[i+1:]...)
		case 3:
			h = append(h[:i], append([]byte{byte(g.rnd.IntN(256))}, h[i:]...)...)
		case 4:
			h = h[:i]
		case 5:
			h[i] += byte(g.rnd.IntN(3)) - 1
		case 6:
			h[i] = []byte{0, 1, 0x7f, 0x80, 0xc0, 0xf0, 0xfe, 0xff}[g.rnd.IntN(8)]
		case 7:
			j := i + 1 + g.rnd.IntN(min(16, len(h)-i))
			k := g.rnd.IntN(len(h))
			seg := append([]byte(nil), h[i:j]...)
			h = append(h[:k], append(seg, h[k:]...)...)
		}
	}
	return h
}

// gvHuge tells whether decoding h could allocate too much for the test.
func gvHuge(h []byte) bool {
	for i := range h {
		if h[i] >= 0xe0 { // a number of four or more bytes
			r := gvRef{b: h, p: i}
			ok := func() (ok bool) {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				v := r.num()
				return v > 1<<22 && v <= 0xffffffff
			}()
			if ok {
				return true
			}
		}
	}
	return false
}

func gvCompare(r *Reader, want []FileHeader) string {
	if len(r.File) != len(want) {
		return fmt.Sprintf("%d files listed, want %d", len(r.File), len(want))
	}
	for i, f := range r.File {
		if d := gvDiffHeader(f.FileHeader, want[i]); d != "" {
			return fmt.Sprintf("file %d: %s", i, d)
		}
	}
	return ""
}

func (g *gvRun) checkRef(h []byte) {
	if gvHuge(h) {
		return
	}
	want, why := gvRefDecode(h)
	if want == nil && why[len(why)-1] == '?' {
		return
	}
	g.cases++
	g.guarded("NewReader of header "+gvHex(h), func() {
		r, err := gvOpen(gvWrap(nil, h), "")
		switch {
		case err != nil && want != nil:
			g.violate("valid header refused: %v; header %s", err, gvHex(h))
		case err == nil && want == nil:
			g.violate("header accepted that has to be refused (%s); header %s", why, gvHex(h))
		case err == nil:
			if d := gvCompare(r, want.files); d != "" {
				g.violate("%s; header %s", d, gvHex(h))
			}
		}
	})
}

func TestGV_HeaderRef(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	n := 60000
	if g.thorough() {
		n = 600000
	}
	for g.more(n) {
		a, _ := g.metaCase()
		h := a.header()
		g.checkRef(h)
		for range 12 {
			g.checkRef(g.mutate(h))
		}
	}
}
