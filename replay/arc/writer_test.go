package sevenzip

// Support for the replay harness: a small 7z archive writer, independent of
// the code under test, and helpers to report violations.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf16"
)

type gvRun struct {
	t     *testing.T
	rnd   *rand.Rand
	cases int
	end   time.Time
	bad   bool
}

func gvStart(t *testing.T) *gvRun {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	d := 25 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 100 * time.Second
	}
	return &gvRun{t: t, rnd: rand.New(rand.NewPCG(uint64(seed)+1, 77)), end: time.Now().Add(d)}
}

func (g *gvRun) thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func (g *gvRun) more(n int) bool {
	return g.cases < n && time.Now().Before(g.end) && !g.bad
}

func (g *gvRun) done() { fmt.Printf("REPLAY-CASES %d\n", g.cases) }

func (g *gvRun) violate(f string, a ...any) {
	g.bad = true
	s := strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " | ")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	fmt.Printf("REPLAY-VIOLATION %s\n", s)
	g.t.FailNow()
}

// guarded runs f, reporting a panic or a hang as a violation.
func (g *gvRun) guarded(what string, f func()) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- fmt.Sprintf("panic: %v", r)
				return
			}
			ch <- ""
		}()
		f()
	}()
	select {
	case s := <-ch:
		if s != "" {
			g.violate("%s: %s", what, s)
		}
	case <-time.After(120 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		g.violate("%s: did not terminate within 120s\n%s", what, buf)
	}
}

// ------------------------------------------------------------------ encoding

func gvVarint(v uint64) []byte {
	for n := 0; n < 8; n++ {
		if v < 1<<(7*(n+1)) {
			first := byte(0xff << (8 - n))
			b := []byte{first | byte(v>>(8*n))}
			for i := 0; i < n; i++ {
				b = append(b, byte(v>>(8*i)))
			}
			return b
		}
	}
	b := []byte{0xff}
	return binary.LittleEndian.AppendUint64(b, v)
}

// gvVarintLong encodes v with at least n extra bytes.
func gvVarintLong(v uint64, n int) []byte {
	c := gvVarint(v)
	if len(c)-1 >= n {
		return c
	}
	if n >= 8 {
		return binary.LittleEndian.AppendUint64([]byte{0xff}, v)
	}
	b := []byte{byte(0xff<<(8-n)) | byte(v>>(8*n))}
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

func gvBits(bs []bool) []byte {
	out := make([]byte, (len(bs)+7)/8)
	for i, b := range bs {
		if b {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	return out
}

// gvOptBits writes an optional bit vector.
func gvOptBits(bs []bool, explicit bool) []byte {
	all := true
	for _, b := range bs {
		all = all && b
	}
	if all && !explicit {
		return []byte{1}
	}
	return append([]byte{0}, gvBits(bs)...)
}

func gvDigests(ds []*uint32, explicit bool) []byte {
	bs := make([]bool, len(ds))
	for i := range ds {
		bs[i] = ds[i] != nil
	}
	out := gvOptBits(bs, explicit)
	for _, d := range ds {
		if d != nil {
			out = binary.LittleEndian.AppendUint32(out, *d)
		}
	}
	return out
}

type gvCoder struct {
	id      []byte
	in, out uint64
	props   []byte
	hasProp bool
	complex bool // force the long form
}

type gvFolder struct {
	coders []gvCoder
	binds  [][2]uint64
	packed []uint64 // explicit packed stream indices
	sizes  []uint64 // unpack sizes, one per output
	packs  []uint64 // sizes of its packed streams
	crc    *uint32  // folder digest
	subs   []uint64 // sizes of the files in the folder
	subCRC []*uint32
}

type gvFile struct {
	name             string
	stream           bool
	emptyFile        bool
	ctime, atime, mt *uint64
	attr             *uint32
}

type gvArc struct {
	packPos   uint64
	folders   []gvFolder
	files     []gvFile
	packCRC   []*uint32
	numSub    bool // write kNumUnpackStream
	noSub     bool // omit SubStreamsInfo
	noSizes   bool
	subDigest bool
	explicit  bool // explicit bit vectors
	longInts  int
	dummy     int // bytes of kDummy padding
	noFiles   bool
	props     []byte // order of the file properties
}

func (a *gvArc) num(v uint64) []byte { return gvVarintLong(v, a.longInts) }

func (a *gvArc) folderBytes(f *gvFolder) []byte {
	var b []byte
	b = append(b, a.num(uint64(len(f.coders)))...)
	var in uint64
	for _, c := range f.coders {
		fl := byte(len(c.id))
		cplx := c.in != 1 || c.out != 1 || c.complex
		if cplx {
			fl |= 0x10
		}
		if c.hasProp || len(c.props) > 0 {
			fl |= 0x20
		}
		b = append(b, fl)
		b = append(b, c.id...)
		if cplx {
			b = append(b, a.num(c.in)...)
			b = append(b, a.num(c.out)...)
		}
		if fl&0x20 != 0 {
			b = append(b, a.num(uint64(len(c.props)))...)
			b = append(b, c.props...)
		}
		in += c.in
	}
	for _, bp := range f.binds {
		b = append(b, a.num(bp[0])...)
		b = append(b, a.num(bp[1])...)
	}
	if in-uint64(len(f.binds)) > 1 {
		for _, p := range f.packed {
			b = append(b, a.num(p)...)
		}
	}
	return b
}

func (a *gvArc) streamsInfo() []byte {
	var b []byte
	var packs []uint64
	for _, f := range a.folders {
		packs = append(packs, f.packs...)
	}
	b = append(b, gvIDPackInfo)
	b = append(b, a.num(a.packPos)...)
	b = append(b, a.num(uint64(len(packs)))...)
	b = append(b, gvIDSize)
	for _, p := range packs {
		b = append(b, a.num(p)...)
	}
	if a.packCRC != nil {
		b = append(b, gvIDCRC)
		b = append(b, gvDigests(a.packCRC, a.explicit)...)
	}
	b = append(b, gvIDEnd)
	b = append(b, gvIDUnpackInfo, gvIDFolder)
	b = append(b, a.num(uint64(len(a.folders)))...)
	b = append(b, 0)
	crc := false
	for i := range a.folders {
		b = append(b, a.folderBytes(&a.folders[i])...)
		crc = crc || a.folders[i].crc != nil
	}
	b = append(b, gvIDCodersUnpackSize)
	for _, f := range a.folders {
		for _, s := range f.sizes {
			b = append(b, a.num(s)...)
		}
	}
	if crc {
		var ds []*uint32
		for _, f := range a.folders {
			ds = append(ds, f.crc)
		}
		b = append(b, gvIDCRC)
		b = append(b, gvDigests(ds, a.explicit)...)
	}
	b = append(b, gvIDEnd)
	if !a.noSub {
		b = append(b, gvIDSubStreamsInfo)
		num := a.numSub
		for _, f := range a.folders {
			num = num || len(f.subs) != 1
		}
		if num {
			b = append(b, gvIDNumUnpackStream)
			for _, f := range a.folders {
				b = append(b, a.num(uint64(len(f.subs)))...)
			}
		}
		n := 0
		for _, f := range a.folders {
			n += len(f.subs)
		}
		if !a.noSizes && n > 0 {
			b = append(b, gvIDSize)
			for _, f := range a.folders {
				for i := 0; i+1 < len(f.subs); i++ {
					b = append(b, a.num(f.subs[i])...)
				}
			}
		}
		if a.subDigest && n > 0 {
			var ds []*uint32
			for _, f := range a.folders {
				ds = append(ds, f.subCRC...)
			}
			b = append(b, gvIDCRC)
			b = append(b, gvDigests(ds, a.explicit)...)
		}
		b = append(b, gvIDEnd)
	}
	return append(b, gvIDEnd)
}

func gvUTF16(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return b
}

func (a *gvArc) filesInfo() []byte {
	b := a.num(uint64(len(a.files)))
	prop := func(id byte, body []byte) {
		b = append(b, id)
		b = append(b, a.num(uint64(len(body)))...)
		b = append(b, body...)
	}
	times := func(id byte, get func(*gvFile) *uint64) {
		bs := make([]bool, len(a.files))
		any := false
		var vals []byte
		for i := range a.files {
			if p := get(&a.files[i]); p != nil {
				bs[i], any = true, true
				vals = binary.LittleEndian.AppendUint64(vals, *p)
			}
		}
		if !any {
			return
		}
		body := append(gvOptBits(bs, a.explicit), 0)
		prop(id, append(body, vals...))
	}
	order := a.props
	if order == nil {
		order = []byte{gvIDDummy, gvIDEmptyStream, gvIDEmptyFile, gvIDName, gvIDCTime, gvIDATime, gvIDMTime, gvIDWinAttributes}
	}
	for _, id := range order {
		switch id {
		case gvIDDummy:
			if a.dummy > 0 {
				prop(gvIDDummy, make([]byte, a.dummy))
			}
		case gvIDEmptyStream:
			var es []bool
			any := false
			for _, f := range a.files {
				es = append(es, !f.stream)
				any = any || !f.stream
			}
			if any {
				prop(gvIDEmptyStream, gvBits(es))
			}
		case gvIDEmptyFile:
			var ef []bool
			any := false
			for _, f := range a.files {
				if !f.stream {
					ef = append(ef, f.emptyFile)
					any = any || f.emptyFile
				}
			}
			if any {
				prop(gvIDEmptyFile, gvBits(ef))
			}
		case gvIDName:
			body := []byte{0}
			for _, f := range a.files {
				body = append(body, gvUTF16(f.name)...)
				body = append(body, 0, 0)
			}
			prop(gvIDName, body)
		case gvIDCTime:
			times(gvIDCTime, func(f *gvFile) *uint64 { return f.ctime })
		case gvIDATime:
			times(gvIDATime, func(f *gvFile) *uint64 { return f.atime })
		case gvIDMTime:
			times(gvIDMTime, func(f *gvFile) *uint64 { return f.mt })
		case gvIDWinAttributes:
			bs := make([]bool, len(a.files))
			any := false
			var vals []byte
			for i, f := range a.files {
				if f.attr != nil {
					bs[i], any = true, true
					vals = binary.LittleEndian.AppendUint32(vals, *f.attr)
				}
			}
			if any {
				body := append(gvOptBits(bs, a.explicit), 0)
				prop(gvIDWinAttributes, append(body, vals...))
			}
		}
	}
	return append(b, gvIDEnd)
}

func (a *gvArc) header() []byte {
	b := []byte{gvIDHeader}
	if len(a.folders) > 0 {
		b = append(b, gvIDMainStreamsInfo)
		b = append(b, a.streamsInfo()...)
	}
	if !a.noFiles && len(a.files) > 0 {
		b = append(b, gvIDFilesInfo)
		b = append(b, a.filesInfo()...)
	}
	return append(b, gvIDEnd)
}

// gvWrap adds the signature and start headers.
func gvWrap(packed, header []byte) []byte {
	var st []byte
	st = binary.LittleEndian.AppendUint64(st, uint64(len(packed)))
	st = binary.LittleEndian.AppendUint64(st, uint64(len(header)))
	st = binary.LittleEndian.AppendUint32(st, crc32.ChecksumIEEE(header))
	b := []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, 4}
	b = binary.LittleEndian.AppendUint32(b, crc32.ChecksumIEEE(st))
	b = append(b, st...)
	b = append(b, packed...)
	return append(b, header...)
}

func gvOpen(b []byte, pw string) (*Reader, error) {
	return NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), pw)
}

func gvU64(v uint64) *uint64 { return &v }
func gvU32(v uint32) *uint32 { return &v }

// gvCopyFolder is a stored folder holding the given files.
func gvCopyFolder(contents ...[]byte) (gvFolder, []byte) {
	all := bytes.Join(contents, nil)
	f := gvFolder{coders: []gvCoder{{id: []byte{0}, in: 1, out: 1}}, sizes: []uint64{uint64(len(all))}, packs: []uint64{uint64(len(all))}}
	for _, c := range contents {
		f.subs = append(f.subs, uint64(len(c)))
		f.subCRC = append(f.subCRC, gvU32(crc32.ChecksumIEEE(c)))
	}
	return f, all
}

func (g *gvRun) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.rnd.Uint32())
	}
	return b
}

func (g *gvRun) chance(n int) bool { return g.rnd.IntN(n) == 0 }

func gvReadAll(f *File) ([]byte, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(rc)
	if e := rc.Close(); err == nil {
		err = e
	}
	return b, err
}

func gvHex(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

const (
	gvIDEnd = iota
	gvIDHeader
	gvIDArchiveProperties
	gvIDAdditionalStreamsInfo
	gvIDMainStreamsInfo
	gvIDFilesInfo
	gvIDPackInfo
	gvIDUnpackInfo
	gvIDSubStreamsInfo
	gvIDSize
	gvIDCRC
	gvIDFolder
	gvIDCodersUnpackSize
	gvIDNumUnpackStream
	gvIDEmptyStream
	gvIDEmptyFile
	gvIDAnti
	gvIDName
	gvIDCTime
	gvIDATime
	gvIDMTime
	gvIDWinAttributes
	gvIDComment
	gvIDEncodedHeader
	gvIDStartPos
	gvIDDummy
)
