package sevenzip

// Reading files and the pooling of folder readers (C08, C09): histories of
// open, read and close over recording decoders, against a model of the pool.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"runtime"
	"testing"
)

// gvDec is one decoder of a folder: it passes its input through, counting.
type gvDec struct {
	g      *gvRun
	folder int
	size   int
	in     io.ReadCloser
	pos    int // bytes delivered
	failAt int // -1: never
	closed int
	tail   bool
	cut    func(int) int
}

func (d *gvDec) Read(p []byte) (int, error) {
	if d.closed > 0 {
		d.g.violate("decoder of folder %d read after it was closed", d.folder)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), d.size-d.pos)
	if d.failAt >= 0 {
		n = min(n, d.failAt-d.pos)
		if n <= 0 {
			return 0, errGV
		}
	}
	if n == 0 {
		return 0, io.EOF
	}
	if d.cut != nil {
		n = d.cut(n)
	}
	n, err := io.ReadFull(d.in, p[:n])
	d.pos += n
	if err == nil && d.tail && d.failAt >= 0 && d.pos == d.failAt {
		return n, errGV
	}
	if err == nil && d.tail && d.pos == d.size {
		return n, io.EOF
	}
	return n, err
}

func (d *gvDec) Close() error { d.closed++; return nil }

type gvHist struct {
	r     *Reader
	fold  [][]byte
	files []gvSlice
	decs  [][]*gvDec
	pools [][]*gvPooled // oldest first
	open  []*gvOpened
	next  int // where the next decoder fails
	multi []bool
}

type gvSlice struct{ folder, off, n int }

type gvPooled struct {
	off int
	d   *gvDec
}

type gvOpened struct {
	f      int
	rc     io.ReadCloser
	d      *gvDec
	pos    int // within the file
	closed bool
	failed bool
}

func TestGV_Read(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	var h *gvHist
	for i := range 3 {
		RegisterDecompressor([]byte{0x7d, byte(i)}, func(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
			d := &gvDec{g: g, folder: i, size: int(size), in: readers[0], failAt: h.next, cut: g.cutter(), tail: g.chance(2)}
			h.decs[i] = append(h.decs[i], d)
			return d, nil
		})
	}
	for g.more(600) {
		g.cases++
		g.guarded("reading history", func() { h = new(gvHist); g.readHistory(h) })
	}
}

func (g *gvRun) readHistory(h *gvHist) {
	var arc gvArc
	var packed []byte
	nf := 1 + g.rnd.IntN(3)
	big := g.chance(4)
	for i := range nf {
		var f gvFolder
		k := 1 + g.rnd.IntN(6)
		if big {
			k = 1 + g.rnd.IntN(2*runtime.NumCPU()+10)
		}
		var cs [][]byte
		off := 0
		for range k {
			n := 1 + g.rnd.IntN(60)
			if g.chance(10) {
				n += 5000
			}
			cs = append(cs, g.bytes(n))
			h.files = append(h.files, gvSlice{i, off, n})
			off += n
		}
		var p []byte
		f, p = gvCopyFolder(cs...)
		f.coders[0].id = []byte{0x7d, byte(i)}
		arc.folders = append(arc.folders, f)
		for range k {
			arc.files = append(arc.files, gvFile{name: fmt.Sprintf("f%d", len(arc.files)), stream: true})
		}
		packed = append(packed, p...)
		h.fold = append(h.fold, p)
		h.multi = append(h.multi, k > 1)
	}
	arc.subDigest = true
	b := gvWrap(packed, arc.header())
	h.decs = make([][]*gvDec, nf)
	h.pools = make([][]*gvPooled, nf)
	h.next = -1
	r, err := gvOpen(b, "")
	if err != nil {
		g.violate("opening a plain archive: %v", err)
	}
	h.r = r
	fails := g.chance(2)
	for range 10 + g.rnd.IntN(60) {
		switch k := g.rnd.IntN(8); {
		case k < 3 || len(h.open) == 0:
			f := g.rnd.IntN(len(h.files))
			if g.chance(3) && len(h.open) > 0 { // the same or the next one
				f = min(h.open[g.rnd.IntN(len(h.open))].f+g.rnd.IntN(2), len(h.files)-1)
			}
			h.next = -1
			if fails && g.chance(3) {
				h.next = g.rnd.IntN(len(h.fold[h.files[f].folder]))
			}
			g.readOpen(h, f)
		case k < 5:
			g.readSome(h, h.open[g.rnd.IntN(len(h.open))])
		case k == 5:
			o := h.open[g.rnd.IntN(len(h.open))]
			for n := 0; !o.closed && !o.failed && n < 10000; n++ {
				if g.readSome(h, o) {
					break
				}
			}
		default:
			i := g.rnd.IntN(len(h.open))
			g.readClose(h, h.open[i])
			if g.chance(2) {
				h.open = append(h.open[:i], h.open[i+1:]...)
			}
		}
		g.readCheck(h)
	}
	for _, o := range h.open {
		g.readClose(h, o)
	}
	g.readCheck(h)
}

// readCheck compares which decoders exist and are closed with the model.
func (g *gvRun) readCheck(h *gvHist) {
	for i, ds := range h.decs {
		live := map[*gvDec]bool{}
		for _, p := range h.pools[i] {
			live[p.d] = true
			if p.d.pos > p.off {
				g.violate("a pooled decoder of folder %d is at %d, not %d", i, p.d.pos, p.off)
			}
		}
		for _, o := range h.open {
			if o.d != nil && !o.closed && h.files[o.f].folder == i {
				live[o.d] = true
			}
		}
		n := 0
		for _, d := range ds {
			if d.closed == 0 {
				n++
			}
			switch {
			case live[d] && d.closed > 0:
				g.violate("folder %d: a decoder in use or pooled was closed", i)
			case !live[d] && d.closed == 0:
				g.violate("folder %d: a decoder neither in use nor acceptable to the pool was not closed (%d pooled)", i, len(h.pools[i]))
			case d.closed > 1:
				g.violate("folder %d: a decoder was closed %d times", i, d.closed)
			}
		}
	}
}

func (g *gvRun) readOpen(h *gvHist, f int) {
	s := h.files[f]
	i := s.folder
	best := -1
	for k, p := range h.pools[i] {
		if p.off <= s.off && (best < 0 || p.off > h.pools[i][best].off) {
			best = k
		}
	}
	before := len(h.decs[i])
	old := make([]int, before)
	for k, d := range h.decs[i] {
		old[k] = d.pos
	}
	rc, err := h.r.File[f].Open()
	var d *gvDec
	if best >= 0 {
		d = h.pools[i][best].d
		h.pools[i] = append(h.pools[i][:best:best], h.pools[i][best+1:]...)
		if len(h.decs[i]) != before {
			g.violate("opening file at %d made a new decoder although one at or before it was pooled", s.off)
		}
	} else {
		if len(h.decs[i]) != before+1 {
			g.violate("opening file at %d: no decoder was pooled at or before it, but none was made", s.off)
		}
		d = h.decs[i][before]
	}
	for k, x := range h.decs[i][:before] {
		if x != d && x.pos != old[k] {
			g.violate("opening file at %d moved another decoder of the folder", s.off)
		}
	}
	if d.failAt >= 0 && (d.failAt < s.off || d.failAt == s.off && d.tail) && d.failAt <= s.off {
		// skipping to the file fails (or, on its last byte, might)
		if err == nil && d.failAt < s.off {
			g.violate("opening file at %d with a decoder that fails at %d succeeded", s.off, d.failAt)
		}
	} else if err != nil {
		g.violate("opening file at %d (decoder at %d): %v", s.off, d.pos, err)
	}
	if err != nil {
		var re *ReadError
		if !errors.As(err, &re) || !errors.Is(err, errGV) {
			g.violate("opening with a failing decoder: %v", err)
		}
		return // and the decoder is to be closed
	}
	h.open = append(h.open, &gvOpened{f: f, rc: rc, d: d})
}

func (g *gvRun) readSome(h *gvHist, o *gvOpened) bool {
	s := h.files[o.f]
	p := make([]byte, g.rnd.IntN(40))
	if g.chance(4) {
		p = make([]byte, 1+g.rnd.IntN(9000))
	}
	n, err := o.rc.Read(p)
	want := h.fold[s.folder][s.off+o.pos : s.off+s.n]
	switch {
	case n < 0 || n > len(p) || n > len(want) || !bytes.Equal(p[:n], want[:n]):
		g.violate("file at %d of %d bytes, after %d: Read delivered %s, want the start of %s", s.off, s.n, o.pos, gvHex(p[:max(n, 0)]), gvHex(want))
	case len(p) == 0:
		return false
	case o.closed:
		if n != 0 || err == nil || err == io.EOF && len(want) > 0 {
			g.violate("Read after Close returned %d, %v", n, err)
		}
		return true
	}
	o.pos += n
	if err == io.EOF && o.pos != s.n {
		g.violate("end of file after %d of %d bytes", o.pos, s.n)
	}
	if err != nil && err != io.EOF {
		var re *ReadError
		if !errors.As(err, &re) || !errors.Is(err, errGV) || o.d.failAt < 0 {
			g.violate("Read failed with %v (%T)", err, err)
		}
		o.failed = true
	}
	if n == 0 && err == nil {
		g.violate("Read of %d bytes returned nothing and no error", len(p))
	}
	return err != nil
}

func (g *gvRun) readClose(h *gvHist, o *gvOpened) {
	err := o.rc.Close()
	if o.closed {
		if err != nil && !errors.Is(err, iofs.ErrClosed) {
			g.violate("closing twice: %v", err)
		}
		return
	}
	o.closed = true
	if err != nil {
		g.violate("closing: %v", err)
	}
	s := h.files[o.f]
	i, at := s.folder, s.off+o.pos
	if o.failed || at == len(h.fold[i]) || !h.multi[i] {
		return
	}
	for _, p := range h.pools[i] {
		if p.off == at {
			return // not accepted
		}
	}
	h.pools[i] = append(h.pools[i], &gvPooled{at, o.d})
	if len(h.pools[i]) > runtime.NumCPU() {
		h.pools[i] = h.pools[i][1:]
	}
}
