package sevenzip

// Modes, names and the file-system view.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"sort"
	"strings"
	"testing"
	"time"
)

// gvMode is the mode the attributes stand for.
func gvMode(a uint32) iofs.FileMode {
	if t := a >> 28; t != 0 {
		m := iofs.FileMode(a>>16) & 0o777
		switch t {
		case 1:
			m |= iofs.ModeNamedPipe
		case 2:
			m |= iofs.ModeDevice | iofs.ModeCharDevice
		case 4:
			m |= iofs.ModeDir
		case 6:
			m |= iofs.ModeDevice
		case 10:
			m |= iofs.ModeSymlink
		case 12:
			m |= iofs.ModeSocket
		}
		if a>>16&0o4000 != 0 {
			m |= iofs.ModeSetuid
		}
		if a>>16&0o2000 != 0 {
			m |= iofs.ModeSetgid
		}
		if a>>16&0o1000 != 0 {
			m |= iofs.ModeSticky
		}
		return m
	}
	m := iofs.FileMode(0o666)
	if a&16 != 0 {
		m = 0o777
	}
	if a&1 != 0 {
		m &= 0o555
	}
	if a&16 != 0 {
		m |= iofs.ModeDir
	}
	return m
}

func TestGV_Mode(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	check := func(a uint32) {
		g.cases++
		h := FileHeader{Name: "d/x", Attributes: a, UncompressedSize: 5, Modified: time.Unix(12345, 600)}
		want := gvMode(a)
		if m := h.Mode(); m != want {
			g.violate("attributes %#08x: mode is %v (%#o), want %v (%#o)", a, m, uint32(m), want, uint32(want))
		}
		fi := h.FileInfo()
		if fi.Mode() != want || fi.IsDir() != want.IsDir() || fi.Name() != "x" || fi.Size() != 5 || !fi.ModTime().Equal(h.Modified) {
			g.violate("attributes %#08x: FileInfo reports mode %v, directory %v, name %q, size %d, time %v for %+v", a, fi.Mode(), fi.IsDir(), fi.Name(), fi.Size(), fi.ModTime(), h)
		}
		if de, ok := fi.(iofs.DirEntry); ok {
			if i, err := de.Info(); err != nil || de.Type() != want.Type() || de.IsDir() != want.IsDir() || de.Name() != "x" || i.Mode() != want {
				g.violate("attributes %#08x: directory entry reports %v %v %q", a, de.Type(), de.IsDir(), de.Name())
			}
		}
	}
	low := []uint32{0, 1, 0x10, 0x11, 0x20, 0x8000, 0x8010, 0xffff, 0xffee}
	for hi := uint32(0); hi < 1<<16; hi++ {
		for _, l := range low {
			check(hi<<16 | l)
		}
	}
	for l := uint32(0); l < 1<<16; l++ {
		check(l)
		check(0x81a4<<16 | l)
	}
	for i := 0; i < 300000; i++ {
		check(g.rnd.Uint32())
	}
}

// ------------------------------------------------------------ the tree

// gvClean is the path shown for a stored name, "" if none.
func gvClean(name string) string {
	var out []string
	for _, c := range strings.FieldsFunc(name, func(r rune) bool { return r == '/' || r == '\\' }) {
		switch c {
		case ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return strings.Join(out, "/")
}

type gvNode struct {
	name  string
	file  int // index, -1 if implied
	isDir bool
	dup   bool
}

func gvTree(names []string) map[string]*gvNode {
	tree := map[string]*gvNode{}
	dirs := map[string]bool{}
	for i, n := range names {
		c := gvClean(n)
		if c == "" {
			continue
		}
		if e := tree[c]; e != nil {
			e.dup = true
			continue
		}
		tree[c] = &gvNode{name: c, file: i, isDir: strings.HasSuffix(n, "/")}
		for k := strings.LastIndexByte(c, '/'); k >= 0; k = strings.LastIndexByte(c[:k], '/') {
			dirs[c[:k]] = true
		}
	}
	for d := range dirs {
		if e := tree[d]; e == nil {
			tree[d] = &gvNode{name: d, file: -1, isDir: true}
		} else if !e.isDir {
			e.dup = true
		}
	}
	return tree
}

func gvSplit(p string) (string, string) {
	if k := strings.LastIndexByte(p, '/'); k >= 0 {
		return p[:k], p[k+1:]
	}
	return ".", p
}

func (g *gvRun) storedName() string {
	parts := []string{"a", "b", "c", "ab", "a b", "a.b", "A", "é", "a-", "a!", "..", ".", "", "...", "..a"}
	top := len(parts)
	if g.chance(2) {
		top = 9
	}
	n := 1 + g.rnd.IntN(3)
	if g.chance(6) {
		n += 3
	}
	var sb strings.Builder
	if g.chance(8) {
		sb.WriteString([]string{"/", "\\", "//", "../", "..\\", "./", "/../"}[g.rnd.IntN(7)])
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.chance(5) {
				sb.WriteByte('\\')
			} else {
				sb.WriteByte('/')
			}
		}
		sb.WriteString(parts[g.rnd.IntN(top)])
	}
	if g.chance(8) {
		sb.WriteByte('/')
	}
	return sb.String()
}

func (g *gvRun) fsCase() {
	n := g.rnd.IntN(9)
	if g.chance(10) {
		n = 10 + g.rnd.IntN(40)
	}
	var arc gvArc
	var names []string
	var contents [][]byte
	var stored [][]byte
	var sizes []uint64
	for i := 0; i < n; i++ {
		f := gvFile{name: g.storedName(), stream: true}
		if len(names) > 0 && g.chance(8) {
			f.name = names[g.rnd.IntN(len(names))]
			if g.chance(2) {
				f.name = strings.TrimSuffix(f.name, "/") + "/" + "b"
			}
		}
		if f.name == "" {
			f.name = "x"
		}
		mt := g.rnd.Uint64N(1 << 57)
		f.mt = &mt
		if strings.HasSuffix(f.name, "/") || g.chance(6) {
			f.stream = false
			f.attr = gvU32(0x10)
			if g.chance(4) {
				f.emptyFile = true
				f.attr = nil
			}
		}
		var c []byte
		if f.stream {
			c = g.bytes(1 + g.rnd.IntN(12))
			stored = append(stored, c)
		}
		arc.files = append(arc.files, f)
		nm := f.name
		if !f.stream && f.attr != nil && !strings.HasSuffix(nm, "/") {
			nm += "/"
		}
		names = append(names, nm)
		contents = append(contents, c)
		sizes = append(sizes, uint64(len(c)))
	}
	var packed []byte
	if len(stored) > 0 {
		var f gvFolder
		f, packed = gvCopyFolder(stored...)
		arc.folders = []gvFolder{f}
		arc.subDigest = true
	}
	if len(arc.files) == 0 {
		return
	}
	what := fmt.Sprintf("archive with the names %q", names)
	r, err := gvOpen(gvWrap(packed, arc.header()), "")
	if err != nil {
		g.violate("%s: %v", what, err)
	}
	tree := gvTree(names)
	children := map[string][]*gvNode{}
	paths := []string{}
	for p, e := range tree {
		d, _ := gvSplit(p)
		children[d] = append(children[d], e)
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, c := range children {
		sort.Slice(c, func(i, j int) bool { return c[i].name < c[j].name })
	}
	probe := append([]string{"."}, paths...)
	for i := 0; i < 6; i++ {
		probe = append(probe, g.storedName(), gvClean(g.storedName()))
		if len(paths) > 0 {
			p := paths[g.rnd.IntN(len(paths))]
			probe = append(probe, p+"x", p[:len(p)-1], p+"/", "/"+p, p+"/b", p+"/.", strings.ToUpper(p))
		}
	}
	g.rnd.Shuffle(len(probe), func(i, j int) { probe[i], probe[j] = probe[j], probe[i] })
	for _, p := range probe {
		f, err := r.Open(p)
		e := tree[p]
		if p == "." {
			e = &gvNode{name: ".", file: -1, isDir: true}
		}
		var pe *iofs.PathError
		switch {
		case !iofs.ValidPath(p):
			if err == nil || !errors.Is(err, iofs.ErrInvalid) || !errors.As(err, &pe) {
				g.violate("%s: opening the invalid path %q gives error %v", what, p, err)
			}
			continue
		case e == nil:
			if err == nil || !errors.Is(err, iofs.ErrNotExist) || !errors.As(err, &pe) {
				g.violate("%s: opening %q, which does not exist, gives error %v", what, p, err)
			}
			continue
		case err != nil:
			g.violate("%s: opening %q: %v", what, p, err)
		}
		st, serr := f.Stat()
		if e.isDir {
			if e.dup {
				if serr == nil {
					g.violate("%s: the duplicate directory %q has no error in Stat", what, p)
				}
			} else if serr != nil {
				g.violate("%s: Stat of %q: %v", what, p, serr)
			} else {
				g.fsInfo(what, p, e, st, arc.files)
			}
			g.fsDir(what, p, f, children[p], arc.files)
		} else {
			if serr != nil {
				g.violate("%s: Stat of %q: %v", what, p, serr)
			}
			g.fsInfo(what, p, e, st, arc.files)
			b, err := io.ReadAll(f)
			if err != nil || !bytes.Equal(b, contents[e.file]) {
				g.violate("%s: reading %q gives %x, %v; want %x", what, p, b, err, contents[e.file])
			}
		}
		if err := f.Close(); err != nil {
			g.violate("%s: closing %q: %v", what, p, err)
		}
	}
}

func (g *gvRun) fsInfo(what, p string, e *gvNode, st iofs.FileInfo, files []gvFile) {
	_, base := gvSplit(p)
	var mt time.Time
	if e.file >= 0 {
		mt = gvFiletime(*files[e.file].mt)
	}
	var size int64 = -1
	if e.isDir {
		size = 0
	}
	if st.Name() != base || st.IsDir() != e.isDir || st.Mode().IsDir() != e.isDir || !st.ModTime().Equal(mt) || size >= 0 && st.Size() != size {
		g.violate("%s: information of %q is name %q directory %v mode %v time %v size %d; want name %q directory %v time %v", what, p, st.Name(), st.IsDir(), st.Mode(), st.ModTime(), st.Size(), base, e.isDir, mt)
	}
}

func (g *gvRun) fsDir(what, p string, f iofs.File, want []*gvNode, files []gvFile) {
	if n, err := f.Read(make([]byte, 4)); n != 0 || err == nil || err == io.EOF {
		g.violate("%s: reading the directory %q gives %d, %v", what, p, n, err)
	}
	d, ok := f.(iofs.ReadDirFile)
	if !ok {
		g.violate("%s: %q cannot be listed", what, p)
	}
	pos := 0
	for step := 0; step < 200; step++ {
		k := g.rnd.IntN(5) - 1
		if k == 0 && pos == 0 && !g.chance(3) {
			k = 1
		}
		m := len(want) - pos
		if k > 0 && m > k {
			m = k
		}
		dup := false
		for _, e := range want[pos : pos+m] {
			dup = dup || e.dup
		}
		l, err := d.ReadDir(k)
		if dup {
			if err == nil {
				g.violate("%s: listing %q includes a duplicate but gives no error", what, p)
			}
			return
		}
		if m == 0 && k > 0 {
			if err != io.EOF || len(l) != 0 {
				g.violate("%s: listing %d more of %q at its end gives %d entries and %v", what, k, p, len(l), err)
			}
			return
		}
		if err != nil || len(l) != m {
			g.violate("%s: listing %d of %q after %d gives %d entries and %v, want %d", what, k, p, pos, len(l), err, m)
		}
		for i, de := range l {
			e := want[pos+i]
			_, base := gvSplit(e.name)
			if de.Name() != base || de.IsDir() != e.isDir {
				g.violate("%s: entry %d of %q is %q (directory %v), want %q (%v)", what, pos+i, p, de.Name(), de.IsDir(), base, e.isDir)
			}
			fi, err := de.Info()
			if err != nil {
				g.violate("%s: information of %q: %v", what, e.name, err)
			}
			if de.Type() != fi.Mode().Type() {
				g.violate("%s: entry %q has type %v but mode %v", what, e.name, de.Type(), fi.Mode())
			}
			g.fsInfo(what, e.name, e, fi, files)
		}
		pos += m
		if k <= 0 && g.chance(2) {
			return
		}
	}
}

func TestGV_FS(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for g.more(6000) {
		g.cases++
		g.guarded("file-system view", g.fsCase)
	}
}
