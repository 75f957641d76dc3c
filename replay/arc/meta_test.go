package sevenzip

// Header decoding: random archives whose decoded listing is known.

import (
	"fmt"
	"testing"
	"time"
)

type gvWant struct {
	FileHeader
}

func (g *gvRun) bigNum() uint64 {
	switch g.rnd.IntN(4) {
	case 0:
		return g.rnd.Uint64N(200)
	case 1:
		return 1<<g.rnd.IntN(63) + g.rnd.Uint64N(3) - 1
	case 2:
		return g.rnd.Uint64() >> (1 + g.rnd.IntN(63))
	}
	return g.rnd.Uint64N(1 << 20)
}

// gvFiletime converts with arbitrary precision seconds.
func gvFiletime(v uint64) time.Time {
	// seconds between 1601-01-01 and 1970-01-01: 369 years, 89 of them leap
	const epoch = (369*365 + 89) * 86400
	return time.Unix(int64(v/10000000)-epoch, int64(v%10000000)*100).UTC()
}

var gvNameRunes = []rune("abcXYZ019._- /éßΩж漢字😀𝄞\\~#")

func (g *gvRun) name() string {
	n := 1 + g.rnd.IntN(12)
	if g.chance(20) {
		n = 100 + g.rnd.IntN(300)
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = gvNameRunes[g.rnd.IntN(len(gvNameRunes))]
	}
	return string(r)
}

func (g *gvRun) metaCase() (*gvArc, []FileHeader) {
	a := &gvArc{explicit: g.chance(2), numSub: g.chance(2), longInts: []int{0, 0, 0, 1, 2, 4, 7, 8}[g.rnd.IntN(8)]}
	nf := g.rnd.IntN(5)
	if g.chance(10) {
		nf = 8 + g.rnd.IntN(20)
	}
	folderCRC := g.chance(3)
	a.noSub = g.chance(6)
	a.subDigest = !folderCRC && !a.noSub
	multi := false
	var want []FileHeader
	for i := 0; i < nf; i++ {
		var f gvFolder
		nc := 1 + g.rnd.IntN(4)
		var in, out uint64
		for c := 0; c < nc; c++ {
			co := gvCoder{id: g.bytes(1 + g.rnd.IntN(15)), in: 1, out: 1, complex: g.chance(4)}
			if g.chance(5) {
				co.in = 1 + g.rnd.Uint64N(4)
			}
			if g.chance(3) {
				co.props = g.bytes(g.rnd.IntN(40) + 1)
			}
			f.coders = append(f.coders, co)
			in += co.in
			out += co.out
		}
		// chain: output k feeds the first input of coder k+1
		var pos uint64
		bound := map[uint64]bool{}
		for c := 0; c < nc; c++ {
			if c > 0 {
				f.binds = append(f.binds, [2]uint64{pos, uint64(c - 1)})
				bound[pos] = true
			}
			pos += f.coders[c].in
		}
		for k := uint64(0); k < in; k++ {
			if !bound[k] {
				f.packed = append(f.packed, k)
			}
		}
		g.rnd.Shuffle(len(f.packed), func(i, j int) { f.packed[i], f.packed[j] = f.packed[j], f.packed[i] })
		for range f.packed {
			f.packs = append(f.packs, g.bigNum()>>4)
		}
		for range out {
			f.sizes = append(f.sizes, g.bigNum())
		}
		if folderCRC && g.chance(2) {
			f.crc = gvU32(g.rnd.Uint32())
		}
		ns := 1
		if !a.noSub {
			switch g.rnd.IntN(5) {
			case 0:
				ns = 0
			case 1, 2:
				ns = 1 + g.rnd.IntN(5)
			case 3:
				if g.chance(4) {
					ns = 1 + g.rnd.IntN(80)
				}
			}
		}
		var total uint64
		for j := 0; j < ns; j++ {
			s := g.bigNum()
			if j == ns-1 {
				s = f.sizes[out-1] - total
			} else if s > f.sizes[out-1]-total {
				s = 0
			}
			total += s
			f.subs = append(f.subs, s)
			var d *uint32
			if g.chance(3) {
				d = gvU32(g.rnd.Uint32())
			}
			f.subCRC = append(f.subCRC, d)
			w := FileHeader{UncompressedSize: s, Stream: i}
			if a.subDigest && d != nil {
				w.CRC32 = *d
			}
			if folderCRC && ns == 1 && f.crc != nil {
				w.CRC32 = *f.crc
			}
			want = append(want, w)
		}
		multi = multi || ns != 1
		a.folders = append(a.folders, f)
	}
	anyCRC := false
	for _, f := range a.folders {
		anyCRC = anyCRC || f.crc != nil
	}
	_ = anyCRC
	a.noSizes = !multi && g.chance(3)
	np := 0
	for _, f := range a.folders {
		np += len(f.packs)
	}
	if g.chance(4) && np > 0 {
		for range np {
			var d *uint32
			if g.chance(2) {
				d = gvU32(g.rnd.Uint32())
			}
			a.packCRC = append(a.packCRC, d)
		}
	}
	a.packPos = g.bigNum() >> 8
	// interleave empty entries
	var out []FileHeader
	k := 0
	for k < len(want) || (len(out) == 0) || g.chance(3) {
		if len(out) > 200 {
			break
		}
		fl := gvFile{name: g.name()}
		var w FileHeader
		if k < len(want) && !g.chance(3) {
			w = want[k]
			k++
			fl.stream = true
		} else {
			fl.emptyFile = g.chance(2)
		}
		ft := func() *uint64 {
			if g.chance(3) {
				return nil
			}
			if g.chance(2) {
				return gvU64(116444736000000000 + g.rnd.Uint64N(1<<54))
			}
			return gvU64(g.rnd.Uint64() >> g.rnd.IntN(40))
		}
		fl.ctime, fl.atime, fl.mt = ft(), ft(), ft()
		if fl.ctime != nil {
			w.Created = gvFiletime(*fl.ctime)
		}
		if fl.atime != nil {
			w.Accessed = gvFiletime(*fl.atime)
		}
		if fl.mt != nil {
			w.Modified = gvFiletime(*fl.mt)
		}
		if g.chance(2) {
			fl.attr = gvU32(g.rnd.Uint32())
			w.Attributes = *fl.attr
		}
		w.Name = fl.name
		at := w.Attributes
		dir := at&0x10 != 0
		if at&0xf0000000 != 0 {
			dir = at>>28 == 4
		}
		if dir && w.Name[len(w.Name)-1] != '/' {
			w.Name += "/"
		}
		a.files = append(a.files, fl)
		out = append(out, w)
	}
	a.dummy = []int{0, 0, 1, 7, 300}[g.rnd.IntN(5)]
	// the file properties may come in any order that keeps kEmptyStream first
	rest := []byte{gvIDDummy, gvIDEmptyFile, gvIDName, gvIDCTime, gvIDATime, gvIDMTime, gvIDWinAttributes}
	g.rnd.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	a.props = append([]byte{gvIDEmptyStream}, rest...)
	if len(want) > 0 && k < len(want) {
		// listing cut short: drop the check of the remainder by adding them
		for ; k < len(want); k++ {
			fl := gvFile{name: fmt.Sprintf("rest%d", k), stream: true}
			w := want[k]
			w.Name = fl.name
			a.files = append(a.files, fl)
			out = append(out, w)
		}
	}
	return a, out
}

func gvDiffHeader(x, y FileHeader) string {
	switch {
	case x.Name != y.Name:
		return fmt.Sprintf("Name %q, want %q", x.Name, y.Name)
	case x.UncompressedSize != y.UncompressedSize:
		return fmt.Sprintf("UncompressedSize %d, want %d", x.UncompressedSize, y.UncompressedSize)
	case x.CRC32 != y.CRC32:
		return fmt.Sprintf("CRC32 %08x, want %08x", x.CRC32, y.CRC32)
	case x.Attributes != y.Attributes:
		return fmt.Sprintf("Attributes %08x, want %08x", x.Attributes, y.Attributes)
	case !x.Created.Equal(y.Created):
		return fmt.Sprintf("Created %v, want %v", x.Created, y.Created)
	case !x.Accessed.Equal(y.Accessed):
		return fmt.Sprintf("Accessed %v, want %v", x.Accessed, y.Accessed)
	case !x.Modified.Equal(y.Modified):
		return fmt.Sprintf("Modified %v, want %v", x.Modified, y.Modified)
	case x.Stream != y.Stream:
		return fmt.Sprintf("Stream %d, want %d", x.Stream, y.Stream)
	}
	return ""
}

func (g *gvRun) checkMeta() {
	a, want := g.metaCase()
	h := a.header()
	b := gvWrap(nil, h)
	g.cases++
	g.guarded("NewReader of header "+gvHex(h), func() {
		r, err := gvOpen(b, "")
		if err != nil {
			g.violate("valid header rejected: %v; header %s", err, gvHex(h))
		}
		if len(r.File) != len(want) {
			g.violate("%d files listed, want %d; header %s", len(r.File), len(want), gvHex(h))
		}
		for i, f := range r.File {
			w := want[i]
			if a.files[i].stream == false {
				w.Stream = f.Stream
			}
			if d := gvDiffHeader(f.FileHeader, w); d != "" {
				g.violate("file %d: %s; header %s", i, d, gvHex(h))
			}
		}
	})
}

func TestGV_Meta(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	n := 6000
	if g.thorough() {
		n = 60000
	}
	for g.more(n) {
		g.checkMeta()
	}
}
