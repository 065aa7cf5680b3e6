package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a run-time value of the interpreted program:
//
//	Int            concrete integer or bool (zero-extended)
//	*Expr          symbolic integer or bool
//	F64, F32       concrete floats
//	string, *SymStr
//	*Obj           struct or array value, or pointer to one
//	Ref            pointer to a scalar variable / field / element
//	Slice, *Map, *Chan, Iface, *Fn, *Closure, Tuple
//	nil            nil pointer, map, chan, func
type Value = any

type Int uint64
type F64 float64
type F32 float32
type C128 complex128

type SymStr struct{ b []Value }

type Tuple []Value

// Poison is the result of something package initialisation could not compute.
type Poison struct{ why string }

// Iface is an interface value.
type Iface struct {
	t types.Type // canonical; nil for a nil interface
	v Value
}

// Obj is a block of memory: a struct, an array or a single variable.
type Obj struct {
	f    []Value
	n    int
	info *objInfo
	pre  bool // existed before the path started
	id   int32
	sh   *shadow
}

type objInfo struct {
	t       types.Type // struct or array type, or the type of a single cell
	n       int
	isArr   bool
	isCell  bool
	fz      []*zeroInfo // struct fields (or a single element for arrays and cells)
	elemAgg bool
}

// Ref points at slot i of o.
type Ref struct {
	o *Obj
	i int
}

// SymRef points at a symbolic index of an array (read only use).
type SymRef struct {
	o   *Obj
	off int
	n   int
	idx *Expr
}

type Slice struct {
	o             *Obj
	off, len, cap int
}

type Closure struct {
	fn   *Fn
	bind []Value
}

// NativeFn is a function value implemented by the engine.
type NativeFn struct {
	name string
	f    Native
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry // concrete keys only
	symKeys int
	n       int
	kt      types.Type
	pre     bool
	sh      *shadow
}

var smallInts = func() (t [2048]Value) {
	for i := range t {
		t[i] = Int(i)
	}
	return
}()

func mkInt(u uint64) Value {
	if u < uint64(len(smallInts)) {
		return smallInts[u]
	}
	return Int(u)
}

var (
	vTrue  = mkInt(1)
	vFalse = mkInt(0)
)

func mkBool(b bool) Value {
	if b {
		return vTrue
	}
	return vFalse
}

// ---- type information -------------------------------------------------

var (
	typeMu   sync.Mutex
	canonMap typeutil.Map
	zeroMap  typeutil.Map
	stdSizes = types.SizesFor("gc", "amd64")
)

func canon(t types.Type) types.Type {
	t = types.Unalias(t)
	typeMu.Lock()
	defer typeMu.Unlock()
	if c := canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

type zeroInfo struct {
	t   types.Type
	agg bool
	oi  *objInfo // for aggregates
	v   Value    // otherwise
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroInfoOf(t types.Type) *zeroInfo {
	typeMu.Lock()
	defer typeMu.Unlock()
	return zeroInfoLocked(t)
}

func zeroInfoLocked(t types.Type) *zeroInfo {
	if z := zeroMap.At(t); z != nil {
		return z.(*zeroInfo)
	}
	z := &zeroInfo{t: t}
	zeroMap.Set(t, z)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		z.agg = true
		z.oi = &objInfo{t: t, n: u.NumFields()}
		for i := 0; i < u.NumFields(); i++ {
			z.oi.fz = append(z.oi.fz, zeroInfoLocked(u.Field(i).Type()))
		}
	case *types.Array:
		z.agg = true
		ez := zeroInfoLocked(u.Elem())
		z.oi = &objInfo{t: t, n: int(u.Len()), isArr: true, fz: []*zeroInfo{ez}, elemAgg: ez.agg}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			z.v = ""
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			z.v = vFalse
		case u.Kind() == types.Float32:
			z.v = F32(0)
		case u.Info()&types.IsFloat != 0:
			z.v = F64(0)
		case u.Info()&types.IsComplex != 0:
			z.v = C128(0)
		default: // unsafe.Pointer, nil
			z.v = nil
		}
	case *types.Slice:
		z.v = Slice{}
	case *types.Interface:
		z.v = Iface{}
	case *types.Tuple:
		var tv Tuple
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, nil)
		}
		z.v = tv
	default:
		z.v = nil
	}
	return z
}

var objIDs int32

func (z *zeroInfo) zero() Value {
	if !z.agg {
		return z.v
	}
	return newObj(z.oi)
}

func newObj(oi *objInfo) *Obj {
	o := &Obj{n: oi.n, info: oi}
	if !oi.isArr {
		o.f = make([]Value, oi.n)
		for i, fz := range oi.fz {
			o.f[i] = fz.zero()
		}
	}
	return o
}

// newArr creates an array object of n elements of the given zero.
func newArr(ez *zeroInfo, n int) *Obj {
	return &Obj{n: n, info: arrInfo(ez)}
}

var (
	arrInfos sync.Map // *zeroInfo -> *objInfo
	cellInfs sync.Map
)

func arrInfo(ez *zeroInfo) *objInfo {
	if v, ok := arrInfos.Load(ez); ok {
		return v.(*objInfo)
	}
	oi := &objInfo{t: ez.t, isArr: true, fz: []*zeroInfo{ez}, elemAgg: ez.agg}
	v, _ := arrInfos.LoadOrStore(ez, oi)
	return v.(*objInfo)
}

func cellInfo(ez *zeroInfo) *objInfo {
	if v, ok := cellInfs.Load(ez); ok {
		return v.(*objInfo)
	}
	oi := &objInfo{t: ez.t, n: 1, isCell: true, fz: []*zeroInfo{ez}}
	v, _ := cellInfs.LoadOrStore(ez, oi)
	return v.(*objInfo)
}

// newVar allocates a variable and returns the pointer to it.
func newVar(z *zeroInfo) Value {
	if z.agg {
		return newObj(z.oi)
	}
	o := &Obj{n: 1, info: cellInfo(z), f: []Value{z.v}}
	return Ref{o, 0}
}

func (oi *objInfo) slotZero(i int) *zeroInfo {
	if oi.isArr || oi.isCell {
		return oi.fz[0]
	}
	return oi.fz[i]
}

// slot returns the raw content of slot i.
func (o *Obj) slot(i int) Value {
	if i < len(o.f) {
		return o.f[i]
	}
	ez := o.info.fz[0]
	if !ez.agg {
		return ez.v
	}
	o.grow(i)
	return o.f[i]
}

func (o *Obj) grow(i int) {
	if i < len(o.f) {
		return
	}
	ez := o.info.fz[0]
	if !ez.agg && i+1 > cap(o.f) && i > 4*len(o.f)+64 {
		nf := make([]Value, len(o.f), i+1)
		copy(nf, o.f)
		o.f = nf
	}
	for len(o.f) <= i {
		z := ez.zero()
		if zo, ok := z.(*Obj); ok && ez.agg && o.pre {
			markPre(zo)
		}
		o.f = append(o.f, z)
	}
}

// ptrTo returns the pointer to slot i.
func (o *Obj) ptrTo(i int) Value {
	z := o.info.slotZero(i)
	if z.agg {
		return o.slot(i)
	}
	return Ref{o, i}
}

func markPre(o *Obj) {
	o.pre = true
	for i, v := range o.f {
		if o.info.slotZero(i).agg {
			markPre(v.(*Obj))
		}
	}
}

// copyObj makes a copy of a struct or array value.
func copyObj(o *Obj) *Obj {
	c := &Obj{n: o.n, info: o.info, f: make([]Value, len(o.f))}
	if o.info.isArr {
		if o.info.elemAgg {
			for i, v := range o.f {
				c.f[i] = copyObj(v.(*Obj))
			}
		} else {
			copy(c.f, o.f)
		}
		return c
	}
	for i, v := range o.f {
		if o.info.fz[i].agg {
			c.f[i] = copyObj(v.(*Obj))
		} else {
			c.f[i] = v
		}
	}
	return c
}

// ---- strings ----------------------------------------------------------

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(abortf("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return smallInts[s[i]]
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSub(v Value, i, j int) Value {
	switch s := v.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		return mkStr(s.b[i:j])
	}
	panic("strSub")
}

// mkStr builds a string from bytes (which must not be mutated afterwards).
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(Int); !ok {
			return &SymStr{b}
		}
	}
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x.(Int))
	}
	return string(out)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = smallInts[s[i]]
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(abortf("strBytes of %T", v))
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return mkStr(out)
}

func concreteStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// ---- debugging --------------------------------------------------------

func showVal(v Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case Int:
		return fmt.Sprint(uint64(x))
	case *Expr:
		return x.String()
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		sb.WriteByte('<')
		for _, b := range x.b {
			if i, ok := b.(Int); ok {
				fmt.Fprintf(&sb, "%q", byte(i))
			} else {
				sb.WriteString(showVal(b, d+1))
			}
			sb.WriteByte(' ')
		}
		sb.WriteByte('>')
		return sb.String()
	case *Obj:
		var ss []string
		for i, f := range x.f {
			if i > 40 {
				break
			}
			ss = append(ss, showVal(f, d+1))
		}
		return "{" + strings.Join(ss, ",") + "}"
	case Slice:
		var ss []string
		for i := 0; i < x.len && i < 64; i++ {
			ss = append(ss, showVal(x.o.slot(x.off+i), d+1))
		}
		return "[" + strings.Join(ss, ",") + "]"
	case Iface:
		if x.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("%s(%s)", x.t, showVal(x.v, d+1))
	case Tuple:
		var ss []string
		for _, f := range x {
			ss = append(ss, showVal(f, d+1))
		}
		return "(" + strings.Join(ss, ",") + ")"
	case *Fn:
		return "fn " + x.name
	case *Closure:
		return "closure " + x.fn.name
	case Ref:
		return fmt.Sprintf("&%p[%d]", x.o, x.i)
	}
	return fmt.Sprintf("%T", v)
}

type abortErr struct{ why string }

func (a abortErr) Error() string { return a.why }

// abortf is panicked with when something cannot be encoded.
func abortf(f string, args ...any) abortErr { return abortErr{fmt.Sprintf(f, args...)} }

var _ = ssa.BuilderMode(0)

// growCap mimics the runtime's slice growth.
func growCap(oldCap, need int, elemSize int64, noscan bool) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if need > doublecap {
		newcap = need
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < need {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if elemSize == 0 {
		return newcap
	}
	sz := roundupsize(int64(newcap)*elemSize, noscan)
	return int(sz / elemSize)
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 || (noscan && req <= 32768) {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	req = size + 8191
	return req &^ 8191
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}
