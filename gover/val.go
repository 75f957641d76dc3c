package main

// Structured values and the memory layout.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Cell struct {
	id   int
	name string
	T    types.Type
	al   *ssa.Alloc
	fr   int // frame id
}

// PtrV is a pointer. Either into a local cell (Cell != nil) or into a heap
// component family Base+Path indexed by Keys.
type PtrV struct {
	Cell *Cell
	CP   []int // field/index path inside a cell
	Base string
	Keys []*Term
	Path string
	Elem types.Type
}

type SliceV struct {
	Arr           *Term // region
	Off, Len, Cap *Term // KInt
	Elem          types.Type
}

type StructV struct {
	T types.Type
	F []Val
}

type IfaceV struct {
	Tag, Ref *Term
	Dyn      Val // statically known dynamic value (may be nil)
	DynT     types.Type
	T        types.Type
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Ref  *Term // unknown function value
	T    types.Type
}

type MapV struct {
	Ref *Term
	T   *types.Map
}

type ArrV struct {
	Rows []*Term // one map Int->leaf for each leaf of the element type
	Elem types.Type
	N    int64
}

type TupleV []Val

// ChanV etc. are not supported.

func (p PtrV) isNilConst() bool {
	return p.Cell == nil && len(p.Keys) == 1 && p.Keys[0].isConst() && p.Keys[0].N.Sign() == 0
}

type leaf struct {
	path string
	sort *Sort
	kind string // term arr off len cap tag ref
}

type Lay struct {
	prog   *Prog
	tags   map[string]int
	tagT   map[int]types.Type
	derv   map[string]int
	opaque map[string]bool
}

const modPrefix = "github.com/bodgit/sevenzip"

func shortPkg(p string) string {
	if p == modPrefix {
		return "sevenzip"
	}
	if strings.HasPrefix(p, modPrefix+"/") {
		return p[strings.LastIndex(p, "/")+1:]
	}
	return p
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
	// byte and uint8 (rune and int32) are the same type
	return aliasRx.ReplaceAllStringFunc(s, func(w string) string {
		if w == "byte" {
			return "uint8"
		}
		return "int32"
	})
}

var aliasRx = regexp.MustCompile(`\b(byte|rune)\b`)

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

var builtinOpaque = map[string]bool{
	"time.Time": true, "bytes.Buffer": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.Map": true, "sync.Pool": true,
	"container/list.List": true, "container/list.Element": false, "io.SectionReader": true, "bufio.Reader": true, "bytes.Reader": true,
}

func (l *Lay) isOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return false
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return false
		}
		k := typeKey(n)
		if v, ok := builtinOpaque[k]; ok {
			return v
		}
		if l.opaque[k] {
			return true
		}
		p := n.Obj().Pkg().Path()
		if strings.HasPrefix(p, modPrefix) || inlineDeps[p] {
			return false
		}
		if structDeps[k] {
			return false
		}
		return true
	}
	return false
}

var structDeps = map[string]bool{
	"container/list.Element": true, "io/fs.PathError": true,
	"github.com/ulikunitz/xz/lzma.Reader2Config": true,
}

func (l *Lay) tagOf(t types.Type) int {
	k := typeKey(t)
	if n, ok := l.tags[k]; ok {
		return n
	}
	n := len(l.tags) + 1
	l.tags[k] = n
	l.tagT[n] = t
	return n
}

func (l *Lay) deriv(k string) int {
	if n, ok := l.derv[k]; ok {
		return n
	}
	n := len(l.derv) + 1
	l.derv[k] = n
	return n
}

func numSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Int8:
		return SNum(8, true)
	case types.Int16:
		return SNum(16, true)
	case types.Int32, types.UntypedRune:
		return SNum(32, true)
	case types.Int, types.Int64, types.UntypedInt:
		return SNum(64, true)
	case types.Uint8:
		return SU8
	case types.Uint16:
		return SU16
	case types.Uint32:
		return SU32
	case types.Uint, types.Uint64, types.Uintptr:
		return SU64
	}
	return nil
}

// leaves lists the leaf components of type t.
func (l *Lay) leaves(t types.Type) []leaf {
	if l.isOpaque(t) {
		return []leaf{{"", SUn("T_" + sanit(typeKey(t))), "opaque"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, "term"}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, "term"}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", numSort(u), "term"}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", SUn("float"), "term"}}
		}
		return []leaf{{"", SRef, "ref"}}
	case *types.Slice:
		return []leaf{{"#arr", SRef, "arr"}, {"#off", SInt, "off"}, {"#len", SInt, "len"}, {"#cap", SInt, "cap"}}
	case *types.Interface:
		return []leaf{{"#tag", SInt, "tag"}, {"", SRef, "ref"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := f.Type().Underlying().(*types.Array); ok {
				continue // separate region
			}
			for _, x := range l.leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + x.path, x.sort, x.kind})
			}
		}
		return out
	case *types.Array:
		return []leaf{{"#region", SRef, "region"}}
	}
	return []leaf{{"", SRef, "ref"}}
}

func sanit(s string) string {
	return strings.NewReplacer("/", "_", "*", "p", "[", "_", "]", "_", " ", "_", "{", "_", "}", "_", ";", "_", "(", "_", ")", "_", ",", "_").Replace(s)
}

// structKey names the component family of a struct type.
func structKey(t types.Type) string { return typeKey(t) }

// elemBase names the region component family for element type t.
func (l *Lay) elemBase(t types.Type) string {
	if l.isOpaque(t) {
		return "M:" + typeKey(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return "M:" + typeKey(types.Typ[u.Kind()])
	case *types.Struct:
		return "M:" + typeKey(t)
	case *types.Interface:
		return "M:iface"
	case *types.Pointer:
		return "M:*" + typeKey(u.Elem())
	}
	return "M:" + typeKey(t)
}

func nestSort(keys []*Term, s *Sort) *Sort {
	for i := len(keys) - 1; i >= 0; i-- {
		s = SArr(keys[i].S, s)
	}
	return s
}

func mkNilSlice(el types.Type) SliceV {
	z := mkI(0, SInt)
	return SliceV{mkI(0, SRef), z, z, z, el}
}

func valString(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case PtrV:
		if x.Cell != nil {
			return "&" + x.Cell.name
		}
		return fmt.Sprintf("&%s%v%s", x.Base, x.Keys, x.Path)
	case SliceV:
		return fmt.Sprintf("slice(%s,%s,%s)", x.Arr, x.Off, x.Len)
	case IfaceV:
		return fmt.Sprintf("iface(%s,%s)", x.Tag, x.Ref)
	case FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
		return "func " + x.Ref.String()
	case StructV:
		var s []string
		for _, f := range x.F {
			s = append(s, valString(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("%v", v)
}
