package sevenzip

// Volumes (openReader) and folder readers: the only oracles that use
// unexported names, all of which the repository's own tests use as well.

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/spf13/afero"
)

// ------------------------------------------------------------- folder readers

func TestGV_Folder(t *testing.T) {
	g := gvStart(t)
	n := 8000
	if g.thorough() {
		n = 20000
	}
	for g.more(n) {
		g.guarded("folder reader", g.folderCase)
		g.cases++
	}
	g.done()
}

func (g *gvRun) folderCase() {
	var size int
	switch g.rnd.IntN(4) {
	case 0:
		size = 1 + g.rnd.IntN(20)
	case 1:
		size = 1 + g.rnd.IntN(300)
	case 2:
		size = 4000 + g.rnd.IntN(300)
	default:
		size = 30000 + g.rnd.IntN(10000)
	}
	content := g.bytes(size)
	f, packed := gvCopyFolder(content)
	if g.chance(3) { // through a filter
		d := 1 + g.rnd.IntN(5)
		f.coders[0] = gvCoder{id: []byte{3}, in: 1, out: 1, props: []byte{byte(d - 1)}, hasProp: true}
		for i := len(packed) - 1; i >= d; i-- {
			packed[i] -= packed[i-d]
		}
		content = make([]byte, len(packed))
		for i := range packed {
			content[i] = packed[i]
			if i >= d {
				content[i] += content[i-d]
			}
		}
		f.subCRC[0] = gvU32(crc32.ChecksumIEEE(content))
	}
	short := 0
	if g.chance(5) { // the data ends early
		short = 1 + g.rnd.IntN(min(size, 40))
		packed = packed[:size-short]
		f.packs[0] = uint64(len(packed))
	}
	have := size - short
	a := gvArc{folders: []gvFolder{f}, files: []gvFile{{name: "a", stream: true}}, subDigest: true}
	r, err := gvOpen(gvWrap(packed, a.header()), "")
	if err != nil {
		g.violate("valid archive refused: %v", err)
	}
	fr, _, _, err := r.folderReader(r.si, 0)
	if err != nil {
		g.violate("folder cannot be read: %v", err)
	}
	rc := io.ReadSeekCloser(fr)
	if s, ok := rc.(interface{ Size() int64 }); ok && s.Size() != int64(size) {
		g.violate("Size() = %d, want %d", s.Size(), size)
	}
	var log []string
	pos, broken := 0, false
	check := func() {
		n, err := rc.Seek(0, io.SeekCurrent)
		if err != nil || n != int64(pos) {
			g.violate("size=%d available=%d %v: position %d (error %v), want %d", size, have, log, n, err, pos)
		}
		if c, ok := rc.(interface{ Checksum() []byte }); ok {
			x := crc32.ChecksumIEEE(content[:pos])
			if w := []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}; !bytes.Equal(c.Checksum(), w) {
				g.violate("size=%d available=%d %v: checksum %x of the first %d bytes, want %x", size, have, log, c.Checksum(), pos, w)
			}
		}
	}
	for range 1 + g.rnd.IntN(8) {
		if g.chance(2) {
			n := 1 + g.rnd.IntN(1+size/2)
			if g.chance(6) {
				n = 0
			}
			b := make([]byte, n)
			m, err := rc.Read(b)
			log = append(log, fmt.Sprintf("Read(%d)=%d,%v", n, m, err))
			if m < 0 || m > n || pos+m > have || !bytes.Equal(b[:m], content[pos:pos+m]) {
				g.violate("size=%d available=%d at %d %v: wrong bytes %s", size, have, pos, log, gvHex(b[:max(0, min(m, n))]))
			}
			pos += m
			if n > 0 && m == 0 && err == nil {
				g.violate("size=%d available=%d at %d %v: no progress", size, have, pos, log)
			}
			if err != nil && (err != io.EOF || pos != have) {
				g.violate("size=%d available=%d at %d %v: failed", size, have, pos, log)
			}
		} else {
			wh := g.rnd.IntN(3)
			var to int
			switch g.rnd.IntN(6) {
			case 0:
				to = -1 - g.rnd.IntN(10)
			case 1:
				to = pos - 1 - g.rnd.IntN(10)
			case 2:
				to = size + 1 + g.rnd.IntN(10)
			case 3:
				to = pos
			case 4:
				to = size
			default:
				to = pos + g.rnd.IntN(size-pos+1)
			}
			off := int64(to)
			switch wh {
			case io.SeekCurrent:
				off -= int64(pos)
			case io.SeekEnd:
				off -= int64(size)
			}
			n, err := rc.Seek(off, wh)
			log = append(log, fmt.Sprintf("Seek(%d,%d)=%d,%v", off, wh, n, err))
			switch {
			case to < 0 || to < pos || to > size:
				if err == nil {
					g.violate("size=%d at %d %v: seek to %d succeeded", size, pos, log, to)
				}
			case to > have:
				if err == nil {
					g.violate("size=%d available=%d at %d %v: seek to %d succeeded beyond the data", size, have, pos, log, to)
				}
				pos, broken = have, true
			default:
				if err != nil || n != int64(to) {
					g.violate("size=%d at %d %v: seek to %d failed", size, pos, log, to)
				}
				pos = to
			}
		}
		check()
		if broken {
			break
		}
	}
	if _, err := rc.Seek(0, 3+g.rnd.IntN(5)); err == nil {
		g.violate("invalid whence accepted")
	}
	check()
	if err := rc.Close(); err != nil {
		g.violate("close: %v", err)
	}
}

// -------------------------------------------------------------------- volumes

type gvVolFS struct {
	afero.Fs
	g       *gvRun
	files   map[string]*gvVol
	openErr map[string]error
	opened  []*gvVol
	log     []string
}

type gvVol struct {
	afero.File
	*bytes.Reader
	name           string
	data           []byte
	statErr, clErr error
	opens, closes  int
	size           int64
}

type gvVolInfo struct {
	os.FileInfo
	v *gvVol
}

func (i gvVolInfo) Size() int64       { return int64(len(i.v.data)) }
func (i gvVolInfo) Name() string      { return filepath.Base(i.v.name) }
func (i gvVolInfo) IsDir() bool       { return false }
func (i gvVolInfo) Mode() os.FileMode { return 0o644 }

func (v *gvVol) Name() string { return v.name }
func (v *gvVol) Stat() (os.FileInfo, error) {
	if v.statErr != nil {
		return nil, v.statErr
	}
	return gvVolInfo{v: v}, nil
}
func (v *gvVol) Close() error                                                  { v.closes++; return v.clErr }
func (v *gvVol) Read(p []byte) (int, error)                                    { return v.Reader.Read(p) }
func (v *gvVol) ReadAt(p []byte, o int64) (int, error)                         { return v.Reader.ReadAt(p, o) }
func (v *gvVol) Seek(o int64, w int) (int64, error)                            { return v.Reader.Seek(o, w) }
func (f *gvVolFS) Name() string                                                { return "gv" }
func (f *gvVolFS) OpenFile(n string, _ int, _ os.FileMode) (afero.File, error) { return f.Open(n) }
func (f *gvVolFS) Stat(n string) (os.FileInfo, error) {
	v := f.files[filepath.Clean(n)]
	if v == nil {
		return nil, &iofs.PathError{Op: "stat", Path: n, Err: iofs.ErrNotExist}
	}
	return gvVolInfo{v: v}, nil
}

func (f *gvVolFS) Open(n string) (afero.File, error) {
	n = filepath.Clean(n)
	f.log = append(f.log, n)
	if err := f.openErr[n]; err != nil {
		return nil, &iofs.PathError{Op: "open", Path: n, Err: err}
	}
	v := f.files[n]
	if v == nil {
		return nil, &iofs.PathError{Op: "open", Path: n, Err: iofs.ErrNotExist}
	}
	v.opens++
	v.Reader = bytes.NewReader(v.data)
	f.opened = append(f.opened, v)
	return v, nil
}

func (g *gvRun) split(b []byte, n int) (vs [][]byte) {
	cuts := []int{0}
	for range n - 1 {
		cuts = append(cuts, g.rnd.IntN(len(b)+1))
	}
	cuts = append(cuts, len(b))
	for i := range cuts {
		for j := i; j > 0 && cuts[j] < cuts[j-1]; j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	for i := range n {
		vs = append(vs, b[cuts[i]:cuts[i+1]])
	}
	return
}

func TestGV_Volumes(t *testing.T) {
	g := gvStart(t)
	n := 8000
	if g.thorough() {
		n = 20000
	}
	for g.more(n) {
		if g.cases%10 == 9 {
			g.guarded("volumes on disk", g.diskCase)
		} else {
			g.guarded("volumes", g.volCase)
		}
		g.cases++
	}
	g.done()
}

func (g *gvRun) volCase() {
	n := 1 + g.rnd.IntN(5)
	if g.chance(10) {
		n = 9 + g.rnd.IntN(5)
	}
	if g.chance(300) {
		n = 998 + g.rnd.IntN(5)
	}
	base := "dir/a.7z"
	if g.chance(4) {
		base = "./x.001.7z"
	}
	data := g.bytes(g.rnd.IntN(60))
	fs := &gvVolFS{g: g, files: map[string]*gvVol{}, openErr: map[string]error{}}
	parts := g.split(append([]byte{1}, data...), n)
	name := func(i int) string { return fmt.Sprintf("%s.%03d", base, i) }
	for i, p := range parts {
		c := filepath.Clean(name(i + 1))
		fs.files[c] = &gvVol{name: c, data: p}
	}
	if g.chance(3) { // beyond a gap, or other files
		c := filepath.Clean(name(n + 2))
		fs.files[c] = &gvVol{name: c, data: []byte("no")}
	}
	want := n
	open := name(1)
	multi := true
	if g.chance(6) {
		multi = false
		open = base + []string{".002", ".7z", "", ".0001", ".01", "001", ".001x", ".001.7z"}[g.rnd.IntN(8)]
		c := filepath.Clean(open)
		fs.files[c] = &gvVol{name: c, data: data}
		parts, want = [][]byte{data}, 1
	}
	at := 1 + g.rnd.IntN(want)
	atName := filepath.Clean(open)
	if multi {
		atName = filepath.Clean(name(at))
	}
	cause := errors.New("injected")
	kind := g.rnd.IntN(5)
	switch kind {
	case 0:
		fs.openErr[atName] = cause
		if at > 1 && g.chance(3) {
			fs.openErr[atName] = iofs.ErrPermission
			cause = iofs.ErrPermission
		}
	case 1:
		fs.files[atName].statErr = cause
	}
	clCause := errors.New("close failed")
	if g.chance(4) {
		for _, v := range fs.files {
			v.clErr = clCause
		}
	}
	ra, size, files, err := openReader(fs, open)
	what := fmt.Sprintf("%d volumes, opening %s, fault %d at %s", want, open, kind, atName)
	if kind <= 1 {
		if err == nil {
			g.violate("%s: no error", what)
		}
		if !errors.Is(err, cause) {
			g.violate("%s: error %v does not report the cause", what, err)
		}
		for _, v := range fs.opened {
			if v.closes == 0 {
				g.violate("%s: %s was left open (opened %v)", what, v.name, fs.log)
			}
		}
		return
	}
	if err != nil {
		g.violate("%s: %v", what, err)
	}
	all := bytes.Join(parts, nil)
	if size != int64(len(all)) {
		g.violate("%s: size %d, want %d", what, size, len(all))
	}
	got := make([]byte, len(all))
	if k, err := ra.ReadAt(got, 0); k != len(all) || (err != nil && err != io.EOF) || !bytes.Equal(got, all) {
		g.violate("%s: content %s (%d, %v), want %s", what, gvHex(got), k, err, gvHex(all))
	}
	if len(all) > 0 {
		o := g.rnd.IntN(len(all))
		w := all[o : o+g.rnd.IntN(len(all)-o+1)]
		got = make([]byte, len(w))
		if k, err := ra.ReadAt(got, int64(o)); len(w) > 0 && (k != len(w) || (err != nil && err != io.EOF) || !bytes.Equal(got, w)) {
			g.violate("%s: content at %d %s (%d, %v), want %s", what, o, gvHex(got), k, err, gvHex(w))
		}
	}
	var names, wantNames []string
	for _, f := range files {
		names = append(names, f.Name())
	}
	for i := range want {
		if multi {
			wantNames = append(wantNames, filepath.Clean(name(i+1)))
		} else {
			wantNames = append(wantNames, filepath.Clean(open))
		}
	}
	if strings.Join(names, ",") != strings.Join(wantNames, ",") {
		g.violate("%s: files %v, want %v", what, names, wantNames)
	}
	open2 := map[*gvVol]int{}
	for _, v := range fs.opened {
		open2[v]++
		if open2[v] > 1 || v.closes > 0 {
			g.violate("%s: %s opened %d times, closed %d times", what, v.name, open2[v], v.closes)
		}
	}
	if len(fs.opened) != want {
		g.violate("%s: opened %d files, want %d", what, len(fs.opened), want)
	}
}

func gvFDs(dir string) (m map[string]int) {
	m = map[string]int{}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			n := 0
			fmt.Sscanf(e.Name(), "%d", &n)
			m[filepath.Base(l)] = n
		}
	}
	return
}

func (g *gvRun) diskCase() {
	dir, err := os.MkdirTemp("", "gvvol")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	f, packed := gvCopyFolder(g.bytes(1+g.rnd.IntN(40)), g.bytes(1+g.rnd.IntN(40)))
	a := gvArc{folders: []gvFolder{f}, files: []gvFile{{name: "a", stream: true}, {name: "b", stream: true}}, subDigest: true, numSub: true}
	b := gvWrap(packed, a.header())
	kind := g.rnd.IntN(4)
	if kind == 0 {
		b[g.rnd.IntN(6)] ^= 0x40 // not an archive
	}
	if kind == 1 {
		b[len(b)-1-g.rnd.IntN(10)] ^= 1 // header checksum
	}
	n := 1 + g.rnd.IntN(4)
	multi := n > 1 || g.chance(2)
	p := filepath.Join(dir, "a.7z")
	var want []string
	if multi {
		for i, part := range g.split(b, n) {
			q := fmt.Sprintf("%s.%03d", p, i+1)
			want = append(want, q)
			_ = os.WriteFile(q, part, 0o600)
		}
		p += ".001"
	} else {
		want = []string{p}
		_ = os.WriteFile(p, b, 0o600)
	}
	rc, err := OpenReader(p)
	what := fmt.Sprintf("%d volumes, kind %d", n, kind)
	if kind <= 1 {
		if err == nil {
			g.violate("%s: damaged archive opened", what)
		}
		if left := gvFDs(dir); len(left) != 0 {
			g.violate("%s: files left open after opening failed: %v", what, left)
		}
		return
	}
	if err != nil {
		g.violate("%s: %v", what, err)
	}
	if strings.Join(rc.Volumes(), ",") != strings.Join(want, ",") {
		g.violate("%s: volumes %v, want %v", what, rc.Volumes(), want)
	}
	for i, f := range rc.File {
		got, err := gvReadAll(f)
		o := 0
		if i == 1 {
			o = int(rc.File[0].UncompressedSize)
		}
		if err != nil || !bytes.Equal(got, packed[o:o+int(f.UncompressedSize)]) {
			g.violate("%s: file %d reads %s (%v)", what, i, gvHex(got), err)
		}
	}
	fds := gvFDs(dir)
	if len(fds) != len(want) {
		g.violate("%s: %d files open, want %d", what, len(fds), len(want))
	}
	if kind == 3 { // one volume cannot be closed
		_ = syscall.Close(fds[filepath.Base(want[g.rnd.IntN(len(want))])])
		if err := rc.Close(); err == nil {
			g.violate("%s: failure to close a volume not reported", what)
		}
	} else if err := rc.Close(); err != nil {
		g.violate("%s: close: %v", what, err)
	}
	if left := gvFDs(dir); len(left) != 0 {
		g.violate("%s: files left open after Close: %v", what, left)
	}
}
