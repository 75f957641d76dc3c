package sevenzip

// No input makes the package's own code panic (C04): archives over the real
// methods with mutated headers, records and streams, used in random ways.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"testing"
)

// gvOwnPanic tells whether the panic being handled started in this module
// (and not in a decoder of another one).
func gvOwnPanic() (bool, string) {
	pc := make([]uintptr, 100)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	seen := false
	for {
		f, more := fr.Next()
		switch {
		case strings.HasPrefix(f.Function, "runtime."):
			seen = seen || strings.Contains(f.Function, "anic")
		case !seen || f.Function == "" || strings.Contains(f.Function, "gvOwnPanic") || strings.Contains(f.Function, "usePanics"):
		case !strings.Contains(strings.SplitN(f.Function, "/", 2)[0], "."): // the standard library
		default:
			return strings.HasPrefix(f.Function, "github.com/bodgit/"), fmt.Sprintf("%s:%d %s", filepath.Base(f.File), f.Line, f.Function)
		}
		if !more {
			return false, ""
		}
	}
}

// use does things with an archive, and returns where it panicked.
func (g *gvRun) use(b []byte, pw string) (where string) {
	defer func() {
		if r := recover(); r != nil {
			own, at := gvOwnPanic()
			if own {
				where = fmt.Sprintf("panic: %v in %s", r, at)
			}
		}
	}()
	var src io.ReaderAt = bytes.NewReader(b)
	size := int64(len(b))
	if g.chance(20) {
		size += int64(g.rnd.IntN(40)) - 20
	}
	r, err := NewReaderWithPassword(src, max(size, 0), pw)
	if err != nil {
		_ = err.Error()
		return
	}
	var open []io.ReadCloser
	for range 3 + g.rnd.IntN(12) {
		switch g.rnd.IntN(6) {
		case 0:
			_ = iofs.WalkDir(r, ".", func(p string, d iofs.DirEntry, err error) error {
				if d != nil {
					_, _ = d.Info()
					_ = d.Type()
				}
				return nil
			})
		case 1, 2:
			if len(r.File) == 0 {
				break
			}
			f := r.File[g.rnd.IntN(len(r.File))]
			_, _ = f.Mode(), f.FileInfo().ModTime()
			if rc, err := f.Open(); err == nil {
				open = append(open, rc)
			} else {
				_ = err.Error()
			}
		case 3, 4:
			if len(open) == 0 {
				break
			}
			rc := open[g.rnd.IntN(len(open))]
			if g.chance(3) {
				_, _ = io.CopyN(io.Discard, rc, 1<<20)
			} else {
				_, _ = rc.Read(make([]byte, g.rnd.IntN(5000)))
			}
		case 5:
			if len(open) > 0 {
				_ = open[g.rnd.IntN(len(open))].Close()
			}
		}
	}
	for _, rc := range open {
		_ = rc.Close()
	}
	return
}

var gvFuzzMethods = []struct {
	id    []byte
	in    uint64
	props func(g *gvRun) []byte
}{
	{[]byte{0}, 1, nil},
	{[]byte{3}, 1, func(g *gvRun) []byte { return g.bytes(1) }},
	{[]byte{3, 1, 1}, 1, func(g *gvRun) []byte {
		return binary.LittleEndian.AppendUint32([]byte{byte(g.rnd.IntN(225))}, uint32(g.rnd.IntN(1<<18)))
	}},
	{[]byte{3, 3, 1, 3}, 1, nil},
	{[]byte{3, 3, 1, 0x1b}, 4, nil},
	{[]byte{3, 3, 2, 5}, 1, nil},
	{[]byte{3, 3, 5, 1}, 1, nil},
	{[]byte{3, 3, 8, 5}, 1, nil},
	{[]byte{4, 1, 8}, 1, nil},
	{[]byte{4, 2, 2}, 1, nil},
	{[]byte{4, 0xf7, 0x11, 1}, 1, func(g *gvRun) []byte { return g.bytes([]int{3, 5}[g.rnd.IntN(2)]) }},
	{[]byte{4, 0xf7, 0x11, 2}, 1, func(g *gvRun) []byte { return g.bytes(3) }},
	{[]byte{4, 0xf7, 0x11, 4}, 1, func(g *gvRun) []byte { return g.bytes([]int{3, 5}[g.rnd.IntN(2)]) }},
	{[]byte{6, 0xf1, 7, 1}, 1, func(g *gvRun) []byte {
		p := []byte{byte(g.rnd.IntN(8)) | byte(g.rnd.IntN(4))<<6}
		if g.chance(8) {
			p[0] |= 0x3f
		}
		return append(p, g.bytes(g.rnd.IntN(34))...)
	}},
	{[]byte{0x0a}, 1, nil},
	{[]byte{0x21}, 1, func(g *gvRun) []byte { return []byte{byte(g.rnd.IntN(12))} }},
	{[]byte{3, 4, 1}, 1, func(g *gvRun) []byte {
		return binary.LittleEndian.AppendUint32([]byte{byte(2 + g.rnd.IntN(63))}, uint32(1<<11+g.rnd.IntN(1<<16)))
	}},
}

// fuzzFolder is a folder over one to three of the methods.
func (g *gvRun) fuzzFolder() (f gvFolder, packed []byte) {
	n := 1 + g.rnd.IntN(3)
	var in uint64
	var free []uint64
	foreign := false
	for k := range n {
		m := gvFuzzMethods[g.rnd.IntN(len(gvFuzzMethods))]
		// the Zstandard decoder reads on its own goroutine, where a panic of
		// another module's decoder cannot be told from one of this module
		for foreign && bytes.Equal(m.id, []byte{4, 0xf7, 0x11, 1}) {
			m = gvFuzzMethods[g.rnd.IntN(len(gvFuzzMethods))]
		}
		foreign = foreign || m.id[0] == 4 || m.id[0] == 0x21 || len(m.id) == 3
		c := gvCoder{id: m.id, in: m.in, out: 1}
		if m.props != nil {
			c.props = m.props(g)
			if g.chance(8) {
				c.props = c.props[:g.rnd.IntN(len(c.props)+1)]
			} else if g.chance(12) && m.id[0] != 6 && m.id[0] != 0x21 && !(m.id[0] == 3 && len(m.id) == 3) {
				c.props = append(c.props, g.bytes(1+g.rnd.IntN(4))...)
			}
		} else if g.chance(15) {
			c.props = g.bytes(1 + g.rnd.IntN(6))
		}
		if g.chance(30) {
			c.in = uint64(g.rnd.IntN(5))
		}
		f.coders = append(f.coders, c)
		if k > 0 && c.in > 0 {
			f.binds = append(f.binds, [2]uint64{in, uint64(k - 1)})
		}
		for i := range c.in {
			if k == 0 || i > 0 {
				free = append(free, in+i)
			}
		}
		in += c.in
		f.sizes = append(f.sizes, uint64(1+g.rnd.IntN(6000)))
	}
	f.packed = free
	for range free {
		p := g.bytes(g.rnd.IntN(300))
		if g.chance(4) {
			p = bytes.Repeat([]byte{byte(g.rnd.IntN(256))}, g.rnd.IntN(6000))
		}
		if len(g.fuzzSeeds()) > 0 && g.chance(2) {
			p = slices.Clone(gvCaptured[g.rnd.IntN(len(gvCaptured))].data)
			if len(p) > 0 && g.chance(2) {
				p[g.rnd.IntN(len(p))] ^= 1 << g.rnd.IntN(8)
			}
		}
		f.packs = append(f.packs, uint64(len(p)))
		packed = append(packed, p...)
	}
	left := f.sizes[n-1]
	for range g.rnd.IntN(3) {
		s := g.rnd.Uint64N(left + 1)
		if g.chance(15) {
			s = g.rnd.Uint64() >> g.rnd.IntN(64)
		}
		f.subs = append(f.subs, s)
		left -= min(left, s)
	}
	f.subs = append(f.subs, left)
	for range f.subs {
		f.subCRC = append(f.subCRC, gvU32(1))
	}
	return f, packed
}

func (g *gvRun) fuzzSeeds() []gvCoded { return gvCaptured }

func (g *gvRun) fuzzCase() {
	var a gvArc
	var packed []byte
	a.subDigest, a.numSub = true, true
	for range 1 + g.rnd.IntN(3) {
		f, p := g.fuzzFolder()
		a.folders = append(a.folders, f)
		packed = append(packed, p...)
		for range f.subs {
			a.files = append(a.files, gvFile{name: g.storedName(), stream: true, attr: gvU32(g.rnd.Uint32())})
			if g.chance(5) {
				a.files = append(a.files, gvFile{name: g.storedName(), emptyFile: g.chance(2)})
			}
		}
	}
	h := a.header()
	if g.chance(3) {
		h = g.mutate(h)
	}
	if gvHuge(h) {
		return
	}
	if len(packed) > 0 && g.chance(3) {
		packed = packed[:g.rnd.IntN(len(packed)+1)]
	}
	b := gvWrap(packed, h)
	if g.chance(6) {
		g.fuzzStart(b)
	}
	if g.chance(10) {
		b = b[:g.rnd.IntN(len(b)+1)]
	}
	g.fuzzUse("archive", b)
}

// fuzzStart puts unusual positions into the start header.
func (g *gvRun) fuzzStart(b []byte) {
	at := []int{12, 20}[g.rnd.IntN(2)]
	v := binary.LittleEndian.Uint64(b[at:])
	switch g.rnd.IntN(4) {
	case 0:
		v = g.rnd.Uint64() >> g.rnd.IntN(64)
	case 1:
		v = 1<<63 - 1 - g.rnd.Uint64N(100)
	case 2:
		v = -g.rnd.Uint64N(100)
	case 3:
		v += g.rnd.Uint64N(5) - 2
	}
	binary.LittleEndian.PutUint64(b[at:], v)
	binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
}

func (g *gvRun) fuzzUse(what string, b []byte) {
	g.cases++
	pw := []string{"", "x", "passwörd"}[g.rnd.IntN(3)]
	var where string
	g.guarded(what, func() { where = g.use(b, pw) })
	if where != "" {
		g.violate("%s; %s %s", where, what, gvHex(b))
	}
}

func TestGV_Fuzz(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	gvCapture(t)
	var seeds [][]byte
	fs, _ := filepath.Glob(filepath.Join(gvRepo(), "testdata", "*.7z"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && len(b) < 50000 {
			seeds = append(seeds, b)
		}
	}
	for g.more(20000) {
		if g.chance(10) && len(seeds) > 0 { // damaged streams of real archives
			b := slices.Clone(seeds[g.rnd.IntN(len(seeds))])
			end := 32 + int(binary.LittleEndian.Uint64(b[12:]))
			if end > len(b) || end == 32 {
				continue
			}
			for range 1 + g.rnd.IntN(3) {
				b[32+g.rnd.IntN((end-32)*2/3+1)] ^= 1 << g.rnd.IntN(8)
			}
			g.fuzzUse("damaged archive", b)
			continue
		}
		g.fuzzCase()
	}
}
