package sevenzip

// Coder chains with recording decompressors: wiring, parameters and output
// bounds (C07, C22), and the errors of failing chains (C21).

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"slices"
	"strings"
	"testing"
)

// gvMix is the output of the test coder: any number of bytes determined by
// everything the coder was given.
func gvMix(id, props []byte, size uint64, in [][]byte, n int) []byte {
	h := sha256.New()
	put := func(b []byte) {
		_ = binary.Write(h, binary.LittleEndian, uint64(len(b)))
		h.Write(b)
	}
	put(id)
	put(props)
	_ = binary.Write(h, binary.LittleEndian, size)
	for _, b := range in {
		put(b)
	}
	seed := h.Sum(nil)
	var out []byte
	for k := uint64(0); len(out) < n; k++ {
		s := sha256.Sum256(binary.LittleEndian.AppendUint64(seed, k))
		out = append(out, s[:]...)
	}
	return out[:n]
}

type gvPlan struct {
	fail    string // "", "new", "read", "password"
	at      int    // bytes before a read failure
	crypto  bool
	surplus int // bytes delivered beyond the unpack size
	pw      *string
	closed  *int
}

type gvMixReader struct {
	g     *gvRun
	plan  gvPlan
	id    []byte
	props []byte
	size  uint64
	in    []io.ReadCloser
	out   []byte
	ready bool
	pos   int
	cut   func(int) int
	bad   error
}

func (m *gvMixReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if !m.ready {
		var ins [][]byte
		for _, r := range m.in {
			b, err := io.ReadAll(r)
			if err != nil {
				m.bad = err
			}
			ins = append(ins, b)
		}
		m.out = gvMix(m.id, m.props, m.size, ins, int(m.size)+m.plan.surplus)
		m.ready = true
	}
	if m.bad != nil {
		return 0, m.bad
	}
	if m.plan.fail == "read" && m.pos >= m.plan.at {
		return 0, errGV
	}
	if m.pos == len(m.out) {
		return 0, io.EOF
	}
	n := min(len(p), len(m.out)-m.pos)
	if m.cut != nil {
		n = m.cut(n)
	}
	if m.plan.fail == "read" {
		n = min(n, m.plan.at-m.pos)
	}
	copy(p, m.out[m.pos:m.pos+n])
	m.pos += n
	return n, nil
}

func (m *gvMixReader) Close() error {
	if m.plan.closed != nil {
		*m.plan.closed++
	}
	return nil
}

type gvMixCrypto struct{ gvMixReader }

func (m *gvMixCrypto) Password(p string) error {
	if m.plan.pw != nil {
		*m.plan.pw = p
	}
	if m.plan.fail == "password" {
		return errGV
	}
	return nil
}

// gvPlans maps a coder (its properties) to what it does.
var gvPlans = map[string]gvPlan{}

func (g *gvRun) register(id []byte) {
	RegisterDecompressor(id, func(props []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
		plan := gvPlans[string(props)]
		if plan.fail == "new" {
			return nil, errGV
		}
		m := gvMixReader{g: g, plan: plan, id: id, props: bytes.Clone(props), size: size, in: slices.Clone(readers), cut: g.cutter()}
		if plan.crypto {
			return &gvMixCrypto{m}, nil
		}
		return &m, nil
	})
}

var gvChainIDs = [][]byte{{0x7e}, {0x7e, 0}, {0x7e, 0, 0}, {0x7e, 1, 2, 3}, {0x03, 0x01}, {0x00, 0x00}}

type gvChain struct {
	f       gvFolder
	packs   [][]byte
	content []byte
	what    string
	broken  string
	hint    bool // the Encrypted hint, if broken
}

var gvUniq uint32

// chain builds a random folder; kind of failure: "", "new", "read", "password", "method", "order", "outs"
func (g *gvRun) chain(failure string) gvChain {
	var c gvChain
	n := 1 + g.rnd.IntN(4)
	outs := make([][]byte, n)
	free := []int{} // unbound outputs so far
	type slot struct{ coder, k int }
	inIdx := uint64(0)
	bad := -1
	if failure != "" {
		bad = g.rnd.IntN(n)
	}
	crypt := false
	var needPack []uint64
	ins := map[uint64][]byte{}
	for i := 0; i < n; i++ {
		gvUniq++
		co := gvCoder{id: gvChainIDs[g.rnd.IntN(len(gvChainIDs))], out: 1}
		co.props = binary.LittleEndian.AppendUint32(nil, gvUniq)
		co.props = append(co.props, g.bytes(g.rnd.IntN(6))...)
		co.in = uint64(1 + g.rnd.IntN(3))
		if g.chance(2) {
			co.in = 1
		}
		// the last coder takes every output left
		if i == n-1 && co.in < uint64(len(free)) {
			co.in = uint64(len(free))
		}
		size := uint64(g.rnd.IntN(40))
		if g.chance(10) {
			size = uint64(g.rnd.IntN(20000))
		}
		if i == n-1 && size == 0 {
			size = 1
		}
		plan := gvPlan{surplus: g.rnd.IntN(3) * g.rnd.IntN(50), crypto: g.chance(4)}
		var data [][]byte
		left := co.in
		for k := uint64(0); k < co.in; k++ {
			must := i == n-1 && left == uint64(len(free))
			left--
			if len(free) > 0 && (must || g.chance(2)) {
				j := g.rnd.IntN(len(free))
				o := free[j]
				free = slices.Delete(free, j, j+1)
				c.f.binds = append(c.f.binds, [2]uint64{inIdx, uint64(o)})
				data = append(data, outs[o])
			} else {
				b := g.bytes(g.rnd.IntN(30))
				needPack = append(needPack, inIdx)
				ins[inIdx] = b
				data = append(data, b)
			}
			inIdx++
		}
		// bindings exist only if some packed stream remains
		outs[i] = gvMix(co.id, co.props, size, data, int(size))
		free = append(free, i)
		if i == bad {
			switch failure {
			case "new":
				plan.fail, plan.crypto = "new", false
				c.hint = crypt
			case "password":
				plan.fail, plan.crypto = "password", true
				c.hint = true
			case "read":
				plan.fail = "read"
				if size > 0 {
					plan.at = g.rnd.IntN(int(size))
				}
			case "method":
				co.id = []byte{0x7d, 0x7d}
				plan.crypto = false
				c.hint = crypt
			}
		}
		crypt = crypt || plan.crypto
		gvPlans[string(co.props)] = plan
		c.f.coders = append(c.f.coders, co)
		c.f.sizes = append(c.f.sizes, size)
	}
	if failure == "read" {
		c.hint = crypt
	}
	c.broken = failure
	g.rnd.Shuffle(len(c.f.binds), func(i, j int) { c.f.binds[i], c.f.binds[j] = c.f.binds[j], c.f.binds[i] })
	g.rnd.Shuffle(len(needPack), func(i, j int) { needPack[i], needPack[j] = needPack[j], needPack[i] })
	c.f.packed = needPack
	for _, i := range needPack {
		c.packs = append(c.packs, ins[i])
		c.f.packs = append(c.f.packs, uint64(len(ins[i])))
	}
	c.content = outs[n-1]
	c.what = fmt.Sprintf("coders %v bind pairs %v packed streams %v sizes %v", c.f.coders, c.f.binds, c.f.packed, c.f.sizes)
	return c
}

// valid: exactly one output is left unbound, some input is packed and no
// chain is without input.
func (c *gvChain) valid() bool {
	return len(c.f.packed) > 0 && len(c.f.binds) == len(c.f.coders)-1
}

func (g *gvRun) goodChain(failure string) gvChain {
	for {
		if c := g.chain(failure); c.valid() {
			return c
		}
	}
}

func (g *gvRun) chainArc(failures ...string) (b []byte, cs []gvChain, at [][2]int) {
	var arc gvArc
	arc.packPos = uint64(g.rnd.IntN(5))
	packed := g.bytes(int(arc.packPos))
	for i, fl := range failures {
		c := g.goodChain(fl)
		left := c.content
		c.f.subs = nil
		for k := 0; k < 3 && len(left) > 1 && g.chance(2); k++ {
			n := 1 + g.rnd.IntN(len(left)-1)
			c.f.subs = append(c.f.subs, uint64(n))
			left = left[n:]
		}
		c.f.subs = append(c.f.subs, uint64(len(left)))
		off := 0
		for k, n := range c.f.subs {
			arc.files = append(arc.files, gvFile{name: fmt.Sprintf("f%d.%d", i, k), stream: true})
			at = append(at, [2]int{i, off})
			off += int(n)
		}
		arc.folders = append(arc.folders, c.f)
		packed = append(packed, bytes.Join(c.packs, nil)...)
		cs = append(cs, c)
	}
	for i := range arc.folders {
		off := 0
		for _, n := range arc.folders[i].subs {
			arc.folders[i].subCRC = append(arc.folders[i].subCRC, gvU32(crc32.ChecksumIEEE(cs[i].content[off:off+int(n)])))
			off += int(n)
		}
	}
	arc.subDigest = true
	b = gvWrap(packed, arc.header())
	if g.chance(3) {
		b = append(bytes.Repeat([]byte{0}, 1+g.rnd.IntN(5000)), b...)
	}
	return b, cs, at
}

func TestGV_Chain(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for _, id := range gvChainIDs {
		g.register(id)
	}
	for g.more(4000) {
		g.cases++
		g.guarded("coder chain", g.chainCase)
	}
}

func (g *gvRun) chainCase() {
	fl := make([]string, 1+g.rnd.IntN(3))
	b, cs, at := g.chainArc(fl...)
	r, err := gvOpen(b, "")
	if err != nil {
		g.violate("archive with %d folders, %s: %v", len(cs), cs[0].what, err)
	}
	for _, i := range g.rnd.Perm(len(r.File)) {
		c := cs[at[i][0]]
		f := r.File[i]
		want := c.content[at[i][1]:][:f.UncompressedSize]
		got, err := gvReadAll(f)
		if err != nil || !bytes.Equal(got, want) {
			g.violate("file %d of %d in folder %d of %d (%s; all: %v): reads %s, %v; want %s", i, len(r.File), at[i][0], len(cs), c.what, gvWhats(cs), gvHex(got), err, gvHex(want))
		}
	}
	// a folder that cannot be connected
	c := g.goodChain("")
	var why string
	switch g.rnd.IntN(4) {
	case 0: // an input bound to a later coder's output
		n := len(c.f.coders)
		if n < 2 || len(c.f.packed) < 2 {
			return
		}
		// move the unbound output: bind some packed input of coder 0 to the last output
		k := slices.IndexFunc(c.f.packed, func(i uint64) bool { return i < c.f.coders[0].in })
		if k < 0 {
			return
		}
		j := g.rnd.IntN(len(c.f.binds))
		c.f.packed = append(slices.Delete(c.f.packed, k, k+1), c.f.binds[j][0])
		c.f.binds[j] = [2]uint64{c.f.packed[len(c.f.packed)-1], 0}
		in := uint64(0)
		for in < c.f.coders[0].in && slices.Contains(c.f.packed, in) {
			in++
		}
		c.f.packed = slices.DeleteFunc(c.f.packed, func(x uint64) bool { return x == in })
		return
	case 1: // a coder with two outputs
		k := g.rnd.IntN(len(c.f.coders))
		c.f.coders[k].out = 2
		c.f.sizes = append(c.f.sizes, 3)
		n := uint64(len(c.f.sizes))
		// keep as many bind pairs as outputs-1: use up a packed input
		if len(c.f.packed) < 2 {
			return
		}
		in := c.f.packed[len(c.f.packed)-1]
		c.f.packed = c.f.packed[:len(c.f.packed)-1]
		c.f.packs = c.f.packs[:len(c.f.packed)]
		c.f.binds = append(c.f.binds, [2]uint64{in, n - 1})
		why = "a coder has two outputs"
	case 2: // forward references only
		if len(c.f.coders) < 2 {
			return
		}
		c.f.coders[0].in = 1
		c.f.coders[1].in = 1
		c.f.coders = c.f.coders[:2]
		c.f.sizes = []uint64{4, 4}
		c.f.binds = [][2]uint64{{0, 1}}
		c.f.packed = []uint64{1}
		c.f.packs = []uint64{5}
		why = "a coder takes the output of a later one"
	case 3: // no unbound output
		c.f.coders = c.f.coders[:1]
		c.f.coders[0].in = 2
		c.f.sizes = []uint64{4}
		c.f.binds = nil
		c.f.packed = []uint64{0, 0}
		c.f.packs = []uint64{3, 3}
		why = "an input is packed twice and another not at all"
	}
	var arc gvArc
	c.f.subs = []uint64{1}
	arc.files = []gvFile{{name: "x", stream: true}}
	arc.folders = []gvFolder{c.f}
	r, err = gvOpen(gvWrap(make([]byte, 1000), arc.header()), "")
	if err != nil {
		return
	}
	if rc, err := r.File[0].Open(); err == nil {
		_, err = rc.Read(make([]byte, 1))
		g.violate("opens a file although %s (%v, bind pairs %v, packed streams %v); first read: %v", why, c.f.coders, c.f.binds, c.f.packed, err)
	}
}

func gvWhats(cs []gvChain) (s []string) {
	for _, c := range cs {
		s = append(s, fmt.Sprintf("[%d packed of %v]", len(c.f.packed), c.f.packs))
	}
	return
}

// ------------------------------------------------------------------ errors

func TestGV_ReadErrors(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	for _, id := range gvChainIDs {
		g.register(id)
	}
	for g.more(6000) {
		g.cases++
		g.guarded("failing chain", g.errorCase)
	}
}

// typed checks an error of a failed chain.
func (g *gvRun) typed(what string, err error, c gvChain) {
	var re *ReadError
	if !errors.As(err, &re) {
		g.violate("%s: the error is not a ReadError: %T %v", what, err, err)
	}
	if re.Encrypted != c.hint {
		g.violate("%s: Encrypted is %v, want %v (%v)", what, re.Encrypted, c.hint, err)
	}
	if c.broken == "method" {
		if !strings.Contains(err.Error(), "unsupported") {
			g.violate("%s: the error for an unknown method is %v", what, err)
		}
	} else if !errors.Is(err, errGV) {
		g.violate("%s: the error does not wrap its cause: %v", what, err)
	}
}

func (g *gvRun) errorCase() {
	kinds := []string{"new", "password", "read", "method"}
	kind := kinds[g.rnd.IntN(4)]
	if g.chance(4) {
		g.packedErrorCase(kind)
		return
	}
	fl := make([]string, 1+g.rnd.IntN(3))
	k := g.rnd.IntN(len(fl))
	fl[k] = kind
	b, cs, at := g.chainArc(fl...)
	pw := []string{"", "secret"}[g.rnd.IntN(2)]
	var seen string
	for _, c := range cs {
		for _, co := range c.f.coders {
			p := gvPlans[string(co.props)]
			p.pw = &seen
			gvPlans[string(co.props)] = p
		}
	}
	r, err := gvOpen(b, pw)
	if err != nil {
		g.violate("archive with a folder whose chain fails (%s): cannot be opened: %v", kind, err)
	}
	for _, i := range g.rnd.Perm(len(r.File)) {
		f := r.File[i]
		c := cs[at[i][0]]
		want := c.content[at[i][1]:][:f.UncompressedSize]
		what := fmt.Sprintf("file of %d bytes at %d of a folder that fails (%q), coders %v bind pairs %v", f.UncompressedSize, at[i][1], c.broken, c.f.coders, c.f.binds)
		rc, err := f.Open()
		if c.broken == "" {
			if err != nil {
				g.violate("%s: %v", what, err)
			}
			got, err := io.ReadAll(rc)
			if err != nil || !bytes.Equal(got, want) {
				g.violate("%s: reads %x %v, want %x", what, got, err, want)
			}
			_ = rc.Close()
			continue
		}
		if c.broken != "read" {
			if err == nil {
				g.violate("%s: opens", what)
			}
			g.typed(what, err, c)
			continue
		}
		if err != nil {
			g.typed(what+" (Open)", err, c)
			continue
		}
		got, err := io.ReadAll(rc)
		if !bytes.HasPrefix(want, got) {
			g.violate("%s: reads %x, want %x", what, got, want)
		}
		if err != nil {
			g.typed(what+" (Read)", err, c)
		} else if len(got) != len(want) {
			g.violate("%s: ends after %d bytes without an error", what, len(got))
		}
		_ = rc.Close()
	}
	for _, c := range cs {
		for _, co := range c.f.coders {
			if gvPlans[string(co.props)].crypto && c.broken != "new" && c.broken != "method" && seen != pw {
				g.violate("a decrypting coder got the password %q, not %q", seen, pw)
			}
		}
	}
}

// packedErrorCase: the chain of a packed header fails.
func (g *gvRun) packedErrorCase(kind string) {
	c := g.goodChain(kind)
	var arc gvArc
	arc.folders = []gvFolder{c.f}
	arc.noSub = true
	packed := bytes.Join(c.packs, nil)
	eh := append([]byte{gvIDEncodedHeader}, arc.streamsInfo()...)
	_, err := gvOpen(gvWrap(packed, eh), "pw")
	what := fmt.Sprintf("archive whose header is packed by a chain that fails (%q), coders %v", kind, c.f.coders)
	if err == nil {
		g.violate("%s: opens", what)
	}
	if kind == "read" {
		// the content may be refused before the failure
		var re *ReadError
		if !errors.As(err, &re) || re.Encrypted != c.hint {
			g.violate("%s: error %T %v, want a ReadError with Encrypted %v", what, err, err, c.hint)
		}
		return
	}
	g.typed(what, err, c)
}

// ---------------------------------------------------------------- registry

func TestGV_Registry(t *testing.T) {
	g := gvStart(t)
	defer g.done()
	var got string
	mk := func(tag string) Decompressor {
		return func(_ []byte, _ uint64, r []io.ReadCloser) (io.ReadCloser, error) {
			got = tag
			return r[0], nil
		}
	}
	ids := [][]byte{{0x7c}, {0x7c, 0}, {0x7c, 0, 0}, {0, 0x7c}, {0x7c, 0x7c}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {}, {0xff}, {0xc3, 0xbf}, {0xef, 0xbf, 0xbd}}
	use := func(id []byte) (string, error) {
		got = ""
		f, p := gvCopyFolder([]byte("hello"))
		f.coders[0].id = id
		arc := gvArc{folders: []gvFolder{f}, files: []gvFile{{name: "x", stream: true}}}
		r, err := gvOpen(gvWrap(p, arc.header()), "")
		if err != nil {
			return "", err
		}
		b, err := gvReadAll(r.File[0])
		if err == nil && got != "" && string(b) != "hello" {
			err = fmt.Errorf("reads %q", b)
		}
		return got, err
	}
	model := map[string]string{}
	for g.more(3000) {
		g.cases++
		id := ids[g.rnd.IntN(len(ids))]
		if g.chance(3) {
			tag := fmt.Sprintf("t%d", g.cases)
			key := bytes.Clone(id)
			RegisterDecompressor(key, mk(tag))
			for i := range key {
				key[i] = 0x55 // the caller's buffer is its own
			}
			model[string(id)] = tag
		}
		tag, err := use(id)
		if want, ok := model[string(id)]; ok {
			if err != nil || tag != want {
				g.violate("method %x was registered as %s, but using it gives %q, %v", id, want, tag, err)
			}
		} else if err == nil {
			g.violate("method %x was never registered, but using it gives %q", id, tag)
		}
	}
}
