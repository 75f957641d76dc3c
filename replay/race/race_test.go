package sevenzip

// Concurrent reading (C24), run with the race detector.

import (
	"bytes"
	"fmt"
	"io"
	iofs "io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sync"
	"testing"
)

var gvIDs = map[string][]byte{
	"copy": {0}, "deflate": {4, 1, 8}, "zstd": {4, 0xf7, 0x11, 1}, "lz4": {4, 0xf7, 0x11, 4}, "brotli": {4, 0xf7, 0x11, 2},
	"lzma": {3, 1, 1}, "lzma2": {0x21}, "delta": {3}, "bzip2": {4, 2, 2},
}

type gvShared struct {
	name string
	r    *Reader
	want [][]byte
}

func TestGV_Race(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	gvCapture(t)
	var names []string
	for _, n := range []string{"aes7z.7z", "bcj.7z", "bcj2.7z", "brotli.7z", "bzip2.7z", "copy.7z", "deflate.7z", "delta.7z", "lz4.7z", "lzma.7z", "lzma2.7z", "ppmd.7z", "zstd.7z", "t2.7z", "t3.7z"} {
		p := filepath.Join(gvRepo(), "testdata", n)
		if _, err := os.Stat(p); err == nil {
			names = append(names, p)
		}
	}
	for g.more(400) {
		g.cases++
		var as []*gvShared
		var err error
		for range 2 + g.rnd.IntN(3) {
			a := new(gvShared)
			if g.chance(8) && len(names) > 0 {
				a.name = names[g.rnd.IntN(len(names))]
				var rc *ReadCloser
				if rc, err = OpenReaderWithPassword(a.name, "password"); err == nil {
					defer rc.Close()
					a.r = &rc.Reader
				}
			} else {
				var b []byte
				a.name, b = g.raceArc()
				a.r, err = gvOpen(b, "")
			}
			if err != nil {
				g.violate("opening %s: %v", a.name, err)
			}
			total := 0
			for _, f := range a.r.File {
				b, err := gvReadAll(f)
				if err != nil {
					g.violate("%s: reading %s alone: %v", a.name, f.Name, err)
				}
				a.want = append(a.want, b)
				total += len(b)
			}
			as = append(as, a)
			if g.chance(2) { // and again, as another archive
				as = append(as, a)
			}
			_ = total
		}
		g.guarded("concurrent reading", func() { g.raceRun(as) })
	}
}

// raceArc is an archive of one or two folders of several files each.
func (g *gvRun) raceArc() (name string, b []byte) {
	var arc gvArc
	var packed []byte
	for range 1 + g.rnd.IntN(2) {
		var c gvCoded
		for c.kind == "" || gvIDs[c.kind] == nil || len(c.want) == 0 || len(c.want) > 60000 {
			c = g.coded()
		}
		f := gvFolder{coders: []gvCoder{{id: gvIDs[c.kind], in: 1, out: 1, props: c.props}}, sizes: []uint64{uint64(len(c.want))}}
		p := c.data
		name += c.kind
		if g.chance(2) { // stored through a difference filter
			q := bytes.Clone(p)
			for i := len(q) - 1; i > 0; i-- {
				q[i] -= q[i-1]
			}
			f.coders = append([]gvCoder{{id: []byte{3}, in: 1, out: 1, props: []byte{0}}}, f.coders...)
			f.sizes = append([]uint64{uint64(len(p))}, f.sizes...)
			f.binds = [][2]uint64{{1, 0}}
			p = q
			name += "<delta"
		}
		f.packs = []uint64{uint64(len(p))}
		left := len(c.want)
		for range g.rnd.IntN(12) {
			n := g.rnd.IntN(left/3 + 1)
			if n > 0 {
				f.subs = append(f.subs, uint64(n))
				left -= n
			}
		}
		f.subs = append(f.subs, uint64(left))
		for range f.subs {
			f.subCRC = append(f.subCRC, gvU32(0))
			arc.files = append(arc.files, gvFile{name: fmt.Sprintf("d/f%d", len(arc.files)), stream: true})
		}
		arc.folders = append(arc.folders, f)
		packed = append(packed, p...)
		name += " "
	}
	arc.subDigest = true
	return name, gvWrap(packed, arc.header())
}

func (g *gvRun) raceRun(as []*gvShared) {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for range 6 {
		seed := g.rnd.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewPCG(seed, 1))
			for range 12 {
				a := as[rnd.IntN(len(as))]
				if rnd.IntN(8) == 0 {
					if err := iofs.WalkDir(a.r, ".", func(string, iofs.DirEntry, error) error { return nil }); err != nil {
						bad <- fmt.Sprintf("%s: listing: %v", a.name, err)
					}
					continue
				}
				if len(a.r.File) == 0 {
					continue
				}
				i := rnd.IntN(len(a.r.File))
				f := a.r.File[i]
				rc, err := f.Open()
				if err != nil {
					bad <- fmt.Sprintf("%s: opening %s: %v", a.name, f.Name, err)
					return
				}
				want := a.want[i]
				if rnd.IntN(2) == 0 {
					want = want[:rnd.IntN(len(want)+1)]
				}
				got := make([]byte, len(want))
				if _, err = io.ReadFull(rc, got); err != nil && len(want) > 0 {
					bad <- fmt.Sprintf("%s: reading %s: %v", a.name, f.Name, err)
				} else if !bytes.Equal(got, want) {
					bad <- fmt.Sprintf("%s: %s reads as something else than alone", a.name, f.Name)
				}
				if err := rc.Close(); err != nil {
					bad <- fmt.Sprintf("%s: closing %s: %v", a.name, f.Name, err)
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		g.violate("%s", s)
	default:
	}
}
