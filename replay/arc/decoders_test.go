package sevenzip

// Decoder readers: ownership of recycled decoders, life cycle and parameters
// (C16, C22), over random interleavings of several readers.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	"github.com/andybalholm/brotli"
	"github.com/bodgit/sevenzip/internal/aes7z"
	ibrotli "github.com/bodgit/sevenzip/internal/brotli"
	ibzip2 "github.com/bodgit/sevenzip/internal/bzip2"
	ideflate "github.com/bodgit/sevenzip/internal/deflate"
	"github.com/bodgit/sevenzip/internal/delta"
	ilz4 "github.com/bodgit/sevenzip/internal/lz4"
	ilzma "github.com/bodgit/sevenzip/internal/lzma"
	ilzma2 "github.com/bodgit/sevenzip/internal/lzma2"
	ippmd "github.com/bodgit/sevenzip/internal/ppmd"
	izstd "github.com/bodgit/sevenzip/internal/zstd"
	"github.com/klauspost/compress/flate"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
)

type gvNew func(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, error)

// gvCoded is encoded data together with the decoder it is for.
type gvCoded struct {
	kind  string
	mk    gvNew
	props []byte
	data  []byte
	want  []byte
}

// gvCaptured holds coded data taken from the repository's own archives, for
// the methods no encoder is available for.
var gvCaptured []gvCoded

func gvCapture(t *testing.T) {
	if gvCaptured != nil {
		return
	}
	root := gvRepo()
	for _, c := range []struct {
		file string
		id   []byte
		kind string
		mk   gvNew
	}{
		{"ppmd.7z", []byte{0x03, 0x04, 0x01}, "ppmd", ippmd.NewReader},
		{"bzip2.7z", []byte{0x04, 0x02, 0x02}, "bzip2", ibzip2.NewReader},
	} {
		got := gvCoded{kind: c.kind, mk: c.mk}
		RegisterDecompressor(c.id, func(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
			got.props = bytes.Clone(p)
			got.data, _ = io.ReadAll(readers[0])
			r, err := c.mk(p, s, []io.ReadCloser{&gvSrc{data: got.data, err: io.EOF}})
			if err != nil {
				return nil, err
			}
			got.want, err = io.ReadAll(r)
			return &gvSrc{data: bytes.Clone(got.want), err: io.EOF}, err
		})
		r, err := OpenReader(filepath.Join(root, "testdata", c.file))
		if err != nil {
			t.Fatal(err)
		}
		for _, f := range r.File {
			if f.UncompressedSize > 0 {
				// the checksum is verified by the reader
				if _, err := gvReadAll(f); err != nil {
					t.Fatal(err)
				}
				break
			}
		}
		_ = r.Close()
		RegisterDecompressor(c.id, Decompressor(c.mk))
		if len(got.data) == 0 || len(got.want) == 0 {
			t.Fatal("nothing captured from ", c.file)
		}
		gvCaptured = append(gvCaptured, got)
	}
}

func gvRepo() string {
	_, f, _, _ := runtime.Caller(0)
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "testdata")); err == nil {
			return d
		}
	}
	return filepath.Dir(f)
}

func gvDict(p byte) int {
	if p == 40 {
		return 1<<32 - 1
	}
	return (2 | int(p)&1) << (p/2 + 11)
}

// coded makes data for a random decoder.
func (g *gvRun) coded() gvCoded {
	plain := g.text()
	if g.chance(25) {
		for n := 5 << 20; len(plain) < n; plain = append(plain, plain...) {
			plain = append(plain, "again "...)
		}
	}
	var b bytes.Buffer
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch k := g.rnd.IntN(10); k {
	case 0:
		w, err := flate.NewWriter(&b, 1+g.rnd.IntN(9))
		must(err)
		_, err = w.Write(plain)
		must(err)
		must(w.Close())
		return gvCoded{"deflate", ideflate.NewReader, nil, b.Bytes(), plain}
	case 1:
		w, err := zstd.NewWriter(&b, zstd.WithEncoderConcurrency(1))
		must(err)
		_, err = w.Write(plain)
		must(err)
		must(w.Close())
		return gvCoded{"zstd", izstd.NewReader, []byte{1, 5, 1, 0, 0}, b.Bytes(), plain}
	case 2:
		w := lz4.NewWriter(&b)
		_, err := w.Write(plain)
		must(err)
		must(w.Close())
		return gvCoded{"lz4", ilz4.NewReader, nil, b.Bytes(), plain}
	case 3, 4:
		for len(plain) < 64 || b.Len() < 32 {
			b.Reset()
			plain = append(plain, g.bytes(64)...)
			w := brotli.NewWriterLevel(&b, g.rnd.IntN(6))
			_, err := w.Write(plain)
			must(err)
			must(w.Close())
		}
		data := b.Bytes()
		if k == 4 {
			h := binary.LittleEndian.AppendUint32(nil, 0x184d2a50)
			h = binary.LittleEndian.AppendUint32(h, 8)
			h = binary.LittleEndian.AppendUint32(h, uint32(len(data)))
			h = append(h, 'B', 'R', byte(g.rnd.IntN(4)), 0)
			data = append(h, data...)
		}
		return gvCoded{"brotli", ibrotli.NewReader, nil, data, plain}
	case 5, 6:
		dict := lzma.MinDictCap << g.rnd.IntN(5)
		if g.chance(2) { // something far away to refer to
			far := g.bytes(min(dict, max(dict-g.rnd.IntN(40), 0)))
			plain = append(append(bytes.Clone(far), far[:min(len(far), 200)]...), plain...)
		}
		if k == 5 {
			c := lzma.WriterConfig{DictCap: dict, Size: int64(len(plain)), SizeInHeader: true,
				Properties: &lzma.Properties{LC: g.rnd.IntN(5), LP: g.rnd.IntN(4), PB: g.rnd.IntN(5)}}
			w, err := c.NewWriter(&b)
			must(err)
			_, err = w.Write(plain)
			must(err)
			must(w.Close())
			h := b.Bytes()
			return gvCoded{"lzma", ilzma.NewReader, h[:5:5], h[13:], plain}
		}
		var p byte
		for gvDict(p) < dict {
			p++
		}
		w, err := lzma.Writer2Config{DictCap: dict}.NewWriter2(&b)
		must(err)
		_, err = w.Write(plain)
		must(err)
		must(w.Close())
		return gvCoded{"lzma2", ilzma2.NewReader, []byte{p}, b.Bytes(), plain}
	case 7:
		d := g.rnd.IntN(256)
		in := g.bytes(g.size())
		return gvCoded{"delta", delta.NewReader, []byte{byte(d)}, in, gvDelta(bytes.Clone(in), d+1)}
	}
	return gvCaptured[g.rnd.IntN(len(gvCaptured))]
}

func (g *gvRun) text() []byte {
	n := []int{0, 1, 30, 900, 5000, 70000}[g.rnd.IntN(6)]
	if n > 1 {
		n = g.rnd.IntN(n) + 1
	}
	words := [][]byte{g.bytes(3), g.bytes(9), g.bytes(40), []byte("the archive ")}
	var b []byte
	for len(b) < n {
		if g.chance(3) {
			b = append(b, g.bytes(1+g.rnd.IntN(20))...)
		} else {
			b = append(b, words[g.rnd.IntN(len(words))]...)
		}
	}
	return b[:n]
}

type gvLive struct {
	idle   int
	c      gvCoded
	src    *gvSrc
	r      io.ReadCloser
	bad    bool // the source is damaged
	got    []byte
	over   bool
	closed bool
}

func TestGV_Decoders(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	gvCapture(t)
	for g.more(150) {
		g.cases++
		g.guarded("decoder history", g.decoderHistory)
		if g.chance(3) {
			g.guarded("decoder parameters", g.decoderParams)
		}
	}
}

func (g *gvRun) decoderHistory() {
	var live []*gvLive
	for range 3 + g.rnd.IntN(30) {
		if len(live) == 0 || g.chance(4) {
			if l := g.decoderOpen(); l != nil {
				live = append(live, l)
			}
			continue
		}
		l := live[g.rnd.IntN(len(live))]
		switch g.rnd.IntN(6) {
		case 0:
			g.decoderClose(l)
		case 1:
			for !l.closed && !l.over {
				g.decoderRead(l)
			}
		default:
			for range g.rnd.IntN(5) {
				g.decoderRead(l)
			}
		}
	}
	for _, l := range live {
		for !l.closed && !l.over {
			g.decoderRead(l)
		}
		g.decoderClose(l)
	}
}

func (g *gvRun) decoderOpen() *gvLive {
	c := g.coded()
	l := &gvLive{c: c}
	data := bytes.Clone(c.data)
	l.src = g.src(data)
	switch {
	case c.kind == "ppmd": // the decoder takes the source to have a ReadByte of its own pace
	case g.chance(8) && len(data) > 0:
		l.bad = true
		if g.chance(2) {
			l.src.data = data[:g.rnd.IntN(len(data))]
		}
		l.src.err = errGV
	case g.chance(8) && len(data) > 0 && c.kind != "delta":
		l.bad = true
		data[g.rnd.IntN(len(data))] ^= byte(1 + g.rnd.IntN(255))
	}
	if g.chance(6) {
		l.src.closeEr = errGV
	}
	r, err := c.mk(bytes.Clone(c.props), uint64(len(c.want)), []io.ReadCloser{l.src})
	if err != nil {
		if !l.bad {
			g.violate("%s decoder refuses its data: %v (%d bytes coded, %d plain)", c.kind, err, len(c.data), len(c.want))
		}
		return nil
	}
	l.r = r
	return l
}

func (g *gvRun) decoderRead(l *gvLive) {
	if l.over && !l.closed {
		return
	}
	p := make([]byte, 1+g.rnd.IntN(4000))
	n, err := l.r.Read(p)
	switch {
	case n < 0 || n > len(p):
		g.violate("%s Read returned count %d for a buffer of %d", l.c.kind, n, len(p))
	case l.closed:
		if n != 0 || err == nil || err == io.EOF {
			g.violate("%s Read after Close returned %d, %v", l.c.kind, n, err)
		}
		return
	}
	l.got = append(l.got, p[:max(n, 0)]...)
	if err != nil {
		l.over = true
	}
	if n == 0 && err == nil {
		if l.idle++; l.idle > 1000 {
			l.over = true // a third-party decoder may stall on damaged data
			if !l.bad {
				g.violate("%s decoder makes no progress after %d of %d bytes", l.c.kind, len(l.got), len(l.c.want))
			}
		}
	}
	if l.bad {
		l.over = l.over || len(l.got) > 1<<20
		if l.src.err == errGV && err == io.EOF && !bytes.Equal(l.got, l.c.want) {
			g.violate("%s reported the end after %d of %d bytes although its source failed", l.c.kind, len(l.got), len(l.c.want))
		}
		return
	}
	if len(l.got) > len(l.c.want) || !bytes.Equal(l.got[len(l.got)-n:], l.c.want[len(l.got)-n:len(l.got)]) {
		g.violate("%s decoder delivered wrong data: %s, want %s", l.c.kind, gvHex(l.got), gvHex(l.c.want))
		l.over = true
	} else if err == io.EOF && len(l.got) != len(l.c.want) {
		g.violate("%s decoder ended after %d of %d bytes", l.c.kind, len(l.got), len(l.c.want))
	} else if err != nil && err != io.EOF && len(l.got) < len(l.c.want) {
		g.violate("%s decoder failed on good data after %d of %d bytes: %v", l.c.kind, len(l.got), len(l.c.want), err)
	} else if n == 0 && err == nil && len(l.got) == len(l.c.want) {
		l.over = true
	}
}

func (g *gvRun) decoderClose(l *gvLive) {
	before := l.src.closed
	err := l.r.Close()
	if l.closed {
		if l.src.closed != before {
			g.violate("second Close of the %s decoder closed the source again", l.c.kind)
		}
		return
	}
	if l.src.closed == 0 {
		g.violate("Close of the %s decoder left the source open", l.c.kind)
	}
	if l.src.closeEr != nil && !errors.Is(err, errGV) {
		g.violate("Close of the %s decoder lost the error of the source: %v", l.c.kind, err)
	}
	if l.src.closeEr == nil && err != nil && !l.bad {
		g.violate("Close of the %s decoder failed: %v", l.c.kind, err)
	}
	if err == nil {
		l.closed = true
		g.decoderRead(l)
		before++
		if err := l.r.Close(); err == nil && l.c.kind != "ppmd" {
			g.violate("second Close of the %s decoder reported success", l.c.kind)
		}
		if l.src.closed != before && l.c.kind != "ppmd" {
			g.violate("source of the %s decoder closed %d times", l.c.kind, l.src.closed)
		}
	} else {
		l.src.closeEr = nil
		l.over = true
	}
}

// decoderParams checks what the constructors refuse, and that parameters
// reach the decoders.
func (g *gvRun) decoderParams() {
	c := g.coded()
	src := func(b []byte) io.ReadCloser { return &gvSrc{data: bytes.Clone(b), err: io.EOF} }
	for _, n := range []int{0, 2, 3, 5} {
		var rs []io.ReadCloser
		for range n {
			rs = append(rs, src(c.data))
		}
		if _, err := c.mk(bytes.Clone(c.props), uint64(len(c.want)), rs); err == nil {
			g.violate("%s decoder accepts %d input streams", c.kind, n)
		}
	}
	size := map[string]int{"lzma": 5, "lzma2": 1, "ppmd": 5, "delta": 1}[c.kind]
	if size > 0 {
		p := g.bytes(g.rnd.IntN(9))
		copy(p, c.props)
		if _, err := c.mk(p, uint64(len(c.want)), []io.ReadCloser{src(c.data)}); err == nil && len(p) != size {
			g.violate("%s decoder accepts %d bytes of properties", c.kind, len(p))
		}
	}
	if c.kind == "lzma2" {
		if _, err := c.mk([]byte{byte(41 + g.rnd.IntN(215))}, 0, []io.ReadCloser{src(c.data)}); err == nil {
			g.violate("lzma2 decoder accepts a dictionary property above 40")
		}
	}
	if c.kind == "ppmd" {
		for _, o := range []byte{0, 1, 65, 255} {
			if _, err := c.mk(append([]byte{o}, c.props[1:]...), 1, []io.ReadCloser{src(c.data)}); err == nil {
				g.violate("ppmd decoder accepts order %d", o)
			}
		}
		if _, err := c.mk([]byte{c.props[0], 0, 1, 0, 0}, 1, []io.ReadCloser{src(c.data)}); err == nil {
			g.violate("ppmd decoder accepts 256 bytes of memory")
		}
	}
	if _, err := aes7z.NewReader([]byte{0x06, 0}, 0, []io.ReadCloser{src(nil), src(nil)}); err == nil {
		g.violate("AES decoder accepts two input streams")
	}
	if c.kind == "lzma2" && g.chance(3) {
		// the dictionary the property stands for is needed, and enough
		p := byte(g.rnd.IntN(15))
		far := g.bytes(gvDict(p))
		plain := append(bytes.Clone(far), far[:300]...)
		var b bytes.Buffer
		w, err := lzma.Writer2Config{DictCap: len(far), BufSize: 1 << 20}.NewWriter2(&b)
		if err == nil {
			_, err = w.Write(plain)
		}
		if err == nil {
			err = w.Close()
		}
		if err != nil {
			panic(fmt.Sprint("encoder: ", err))
		}
		r, err := ilzma2.NewReader([]byte{p}, uint64(len(plain)), []io.ReadCloser{src(b.Bytes())})
		if err != nil {
			g.violate("lzma2 decoder refuses property %d: %v", p, err)
			return
		}
		if got, err := io.ReadAll(r); err != nil || !bytes.Equal(got, plain) {
			g.violate("lzma2 decoder with property %d fails on data that needs a dictionary of %d bytes: %v", p, len(far), err)
		}
	}
}

// TestGV_Methods reads archives whose folder has one coder of each method.
func TestGV_Methods(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	gvCapture(t)
	ids := map[string][]byte{"delta": {3}, "lzma": {3, 1, 1}, "deflate": {4, 1, 8}, "bzip2": {4, 2, 2}, "zstd": {4, 0xf7, 0x11, 1},
		"brotli": {4, 0xf7, 0x11, 2}, "lz4": {4, 0xf7, 0x11, 4}, "lzma2": {0x21}, "ppmd": {3, 4, 1}}
	branch := map[string][]byte{"ARM": {3, 3, 5, 1}, "PPC": {3, 3, 2, 5}, "SPARC": {3, 3, 8, 5}, "ARM64": {0x0a}, "BCJ": {3, 3, 1, 3}}
	for g.more(300) {
		g.cases++
		var c gvCoded
		var id []byte
		if g.chance(3) {
			f := gvFilters()[g.rnd.IntN(len(gvFilters()))]
			c = gvCoded{kind: f.name, data: g.code(100 + g.rnd.IntN(3000))}
			c.want = bytes.Clone(c.data)
			f.ref(c.want, false)
			id = branch[f.name]
		} else {
			c = g.coded()
			id = ids[c.kind]
		}
		if len(c.want) == 0 || len(c.want) > 1<<20 {
			continue
		}
		g.guarded("archive of one "+c.kind+" folder", func() {
			f, _ := gvCopyFolder(c.want)
			f.coders[0].id, f.coders[0].props = id, c.props
			f.packs = []uint64{uint64(len(c.data))}
			arc := gvArc{folders: []gvFolder{f}, files: []gvFile{{name: "x", stream: true}}}
			r, err := gvOpen(gvWrap(c.data, arc.header()), "")
			if err != nil {
				g.violate("archive with a %s folder is refused: %v", c.kind, err)
				return
			}
			if b, err := gvReadAll(r.File[0]); err != nil || !bytes.Equal(b, c.want) {
				g.violate("file of a %s folder (method %x, properties %x) reads as %d bytes, %v; want %d bytes", c.kind, id, c.props, len(b), err, len(c.want))
			}
		})
	}
}
