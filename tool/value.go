package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of *Term (scalar), *StructVal, *ArrVal, *SliceVal, *StrVal,
// *PtrVal, *IfaceVal, *FuncVal, *TupleVal, *OpaqueVal.
type Val interface{}

type StructVal struct{ f []Val }
type ArrVal struct{ e []Val }
type TupleVal struct{ v []Val }
type SliceVal struct {
	elem               types.Type
	obj, off, len, cap *Term
	snap               *State
}
type StrVal struct {
	arr, off, len *Term
	c             *string
}
type PtrVal struct{ alts []PtrAlt }
type PtrAlt struct {
	g   *Term
	loc *Loc // nil: the nil pointer
}
type LocKind uint8

const (
	LCell LocKind = iota
	LElem         // slice element heap[obj][idx]
	LArr          // whole backing array (pointer to array)
	LOpaque
)

type Loc struct {
	kind LocKind
	cell int
	elem types.Type // LElem, LArr
	obj  *Term
	idx  *Term // LElem index; LArr offset
	n    int64 // LArr length
	path []PathElem
	snap *State
	typ  types.Type // type of the root object (cell type or elem)
	id   *Term      // LOpaque
}
type PathElem struct {
	field int
	idx   *Term // array index when non-nil
}
type IfaceVal struct{ alts []IfaceAlt }
type IfaceAlt struct {
	g      *Term
	typ    types.Type // nil with opaque==nil: nil interface
	val    Val
	opaque *Term
}
type FuncVal struct{ alts []FuncAlt }
type FuncAlt struct {
	g      *Term
	fn     *ssa.Function // nil with opaque==nil: nil func
	bind   []Val
	opaque *Term
	bi     *ssa.Builtin
}
type OpaqueVal struct {
	id  *Term
	typ types.Type
}
type PoisonVal struct{ why string }

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---------------------------------------------------------------- integer representation

type Rep struct {
	kind   SortKind // SBool SInt SBV
	w      int
	signed bool
}

func basicWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func (ex *Exec) rep(t types.Type) (Rep, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Rep{}, false
	}
	if b.Info()&types.IsBoolean != 0 {
		return Rep{kind: SBool}, true
	}
	w, s := basicWidth(b)
	if w == 0 {
		return Rep{}, false
	}
	r := Rep{w: w, signed: s}
	switch ex.mode {
	case "bv":
		r.kind = SBV
	case "mixed":
		if !s && w >= 32 {
			r.kind = SBV
		} else {
			r.kind = SInt
		}
	default:
		r.kind = SInt
	}
	return r, true
}

func (r Rep) sort() *Sort {
	switch r.kind {
	case SBool:
		return BoolS
	case SInt:
		return IntS
	}
	return BVS(r.w)
}

func (r Rep) bounds() (lo, hi *big.Int) {
	if r.kind == SBool {
		return nil, nil
	}
	if r.signed {
		hi = bvMask(r.w - 1)
		lo = new(big.Int).Neg(new(big.Int).Add(hi, bi1))
		return
	}
	return bi0, bvMask(r.w)
}

func (r Rep) k(n *big.Int) *Term {
	switch r.kind {
	case SInt:
		return IntB(n)
	case SBV:
		return BVK(r.w, n)
	}
	return BoolK(n.Sign() != 0)
}

func (ex *Exec) idxSort() *Sort {
	if ex.mode == "bv" {
		return BVS(64)
	}
	return IntS
}
func (ex *Exec) ik(n int64) *Term { return KOf(ex.idxSort(), n) }
func (ex *Exec) byteSort() *Sort {
	if ex.mode == "bv" {
		return BVS(8)
	}
	return IntS
}

var maxLen = new(big.Int).Lsh(bi1, 47)

// ---------------------------------------------------------------- leaves

type Leaf struct {
	path   string
	sort   *Sort
	lo, hi *big.Int
}

func (ex *Exec) leaves(t types.Type) []Leaf {
	if l, ok := ex.leafMemo[t]; ok {
		return l
	}
	l := ex.leaves0(t)
	ex.leafMemo[t] = l
	return l
}

func (ex *Exec) strArrSort() *Sort { return ArrS(ex.idxSort(), ex.byteSort()) }

func (ex *Exec) leaves0(t types.Type) []Leaf {
	if r, ok := ex.rep(t); ok {
		l := Leaf{sort: r.sort()}
		if r.kind == SInt {
			l.lo, l.hi = r.bounds()
		}
		return []Leaf{l}
	}
	ix := ex.idxSort()
	ib := func(l Leaf) Leaf {
		if l.sort.kind == SInt {
			l.lo = bi0
			l.hi = maxLen
		}
		return l
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return []Leaf{{path: ".arr", sort: ex.strArrSort()}, ib(Leaf{path: ".off", sort: ix}), ib(Leaf{path: ".len", sort: ix})}
		}
		return []Leaf{{path: ".opaque", sort: IntS}}
	case *types.Slice:
		return []Leaf{{path: ".obj", sort: IntS, lo: bi0}, ib(Leaf{path: ".off", sort: ix}), ib(Leaf{path: ".len", sort: ix}), ib(Leaf{path: ".cap", sort: ix})}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range ex.leaves(u.Field(i).Type()) {
				l.path = fmt.Sprintf(".%d%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 256 {
			unsup("large array in aggregate: %s", t)
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range ex.leaves(u.Elem()) {
				l.path = fmt.Sprintf("[%d]%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	default:
		return []Leaf{{path: ".ref", sort: IntS}}
	}
}

func (ex *Exec) flatten(v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *StructVal:
		u := t.Underlying().(*types.Struct)
		var out []*Term
		for i, f := range v.f {
			out = append(out, ex.flatten(f, u.Field(i).Type())...)
		}
		return out
	case *ArrVal:
		u := t.Underlying().(*types.Array)
		var out []*Term
		for _, f := range v.e {
			out = append(out, ex.flatten(f, u.Elem())...)
		}
		return out
	case *SliceVal:
		return []*Term{v.obj, v.off, v.len, v.cap}
	case *StrVal:
		return []*Term{v.arr, v.off, v.len}
	case *IfaceVal:
		return []*Term{ex.ifaceTerm(v)}
	case *PtrVal:
		return []*Term{ex.ptrTerm(v, t)}
	case *FuncVal:
		return []*Term{ex.funcTerm(v)}
	case *OpaqueVal:
		return []*Term{v.id}
	}
	unsup("flatten %T (%s)", v, t)
	return nil
}

func (ex *Exec) box(key string, v Val) *Term {
	if id, ok := ex.boxIDs[key]; ok {
		return IntK(id)
	}
	id := int64(1000000000 + len(ex.boxes))
	ex.boxIDs[key] = id
	ex.boxes[id] = v
	return IntK(id)
}

func (ex *Exec) ifaceTerm(v *IfaceVal) *Term {
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var t *Term
		switch {
		case a.opaque != nil:
			t = a.opaque
		case a.typ == nil:
			t = IntK(0)
		default:
			ts := ex.flatten(a.val, a.typ)
			key := "i:" + typeKey(a.typ)
			allK := true
			for _, x := range ts {
				key += fmt.Sprintf(",%d", x.id)
				allK = allK && x.isK()
			}
			if ex.boxFn && !allK || allK || len(ts) == 0 || true {
				t = ex.box(key, &IfaceVal{alts: []IfaceAlt{{g: True, typ: a.typ, val: a.val}}})
			}
		}
		if r == nil {
			r = t
		} else {
			r = Ite(a.g, t, r)
		}
	}
	if r == nil {
		return IntK(0)
	}
	return r
}

// hasBox: one of the values the conditional may take is of a known type.
func (ex *Exec) hasBox(t *Term) bool {
	for _, l := range iteLeaves(t) {
		if l.isK() {
			if _, ok := ex.boxes[l.k.Int64()]; ok {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) ifaceFromTerm(t *Term, it types.Type) *IfaceVal {
	out := &IfaceVal{}
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g == False {
			return
		}
		if t.isK() {
			if t.k.Sign() == 0 {
				out.alts = append(out.alts, IfaceAlt{g: g})
				return
			}
			if b, ok := ex.boxes[t.k.Int64()]; ok {
				if iv, ok := b.(*IfaceVal); ok {
					for _, a := range iv.alts {
						a.g = And(g, a.g)
						out.alts = append(out.alts, a)
					}
					return
				}
			}
			out.alts = append(out.alts, IfaceAlt{g: g, opaque: t})
			return
		}
		if t.op == OIte && ex.hasBox(t) {
			if len(out.alts) > 300 {
				unsup("interface value with too many cases")
			}
			rec(And(g, t.args[0]), t.args[1])
			rec(And(g, Not(t.args[0])), t.args[2])
			return
		}
		z := Eq(t, IntK(0))
		if z != True && z != False {
			out.alts = append(out.alts, IfaceAlt{g: And(g, z)})
		}
		out.alts = append(out.alts, IfaceAlt{g: And(g, Not(z)), opaque: t})
	}
	rec(True, t)
	return out
}

func (ex *Exec) ptrTerm(v *PtrVal, t types.Type) *Term {
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var x *Term
		if a.loc == nil {
			x = IntK(0)
		} else if a.loc.kind == LOpaque {
			x = a.loc.id
		} else {
			x = ex.box("p:"+locKey(a.loc), &PtrVal{alts: []PtrAlt{{g: True, loc: a.loc}}})
		}
		if r == nil {
			r = x
		} else {
			r = Ite(a.g, x, r)
		}
	}
	if r == nil {
		return IntK(0)
	}
	return r
}

func locKey(l *Loc) string {
	s := fmt.Sprintf("%d/%d", l.kind, l.cell)
	if l.obj != nil {
		s += fmt.Sprintf("/o%d", l.obj.id)
	}
	if l.idx != nil {
		s += fmt.Sprintf("/i%d", l.idx.id)
	}
	if l.elem != nil {
		s += "/" + typeKey(l.elem)
	}
	for _, p := range l.path {
		if p.idx != nil {
			s += fmt.Sprintf("[%d]", p.idx.id)
		} else {
			s += fmt.Sprintf(".%d", p.field)
		}
	}
	if l.snap != nil {
		s += fmt.Sprintf("@%p", l.snap)
	}
	if l.id != nil {
		s += fmt.Sprintf("/x%d", l.id.id)
	}
	return s
}

func (ex *Exec) ptrFromTerm(t *Term, pt types.Type) *PtrVal {
	out := &PtrVal{}
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g == False {
			return
		}
		if t.isK() {
			if t.k.Sign() == 0 {
				out.alts = append(out.alts, PtrAlt{g: g})
				return
			}
			if b, ok := ex.boxes[t.k.Int64()]; ok {
				if iv, ok := b.(*PtrVal); ok {
					for _, a := range iv.alts {
						a.g = And(g, a.g)
						out.alts = append(out.alts, a)
					}
					return
				}
			}
		}
		if t.op == OIte {
			rec(And(g, t.args[0]), t.args[1])
			rec(And(g, Not(t.args[0])), t.args[2])
			return
		}
		z := Eq(t, IntK(0))
		out.alts = append(out.alts, PtrAlt{g: And(g, z)})
		out.alts = append(out.alts, PtrAlt{g: And(g, Not(z)), loc: &Loc{kind: LOpaque, id: t}})
	}
	rec(True, t)
	return out
}

func (ex *Exec) funcTerm(v *FuncVal) *Term {
	var r *Term
	for i := len(v.alts) - 1; i >= 0; i-- {
		a := v.alts[i]
		var x *Term
		if a.opaque != nil {
			x = a.opaque
		} else if a.fn == nil {
			x = IntK(0)
		} else {
			ex.uniq++
			key := fmt.Sprintf("f:%s", a.fn.String())
			if len(a.bind) > 0 {
				key += fmt.Sprint(ex.uniq)
			}
			x = ex.box(key, &FuncVal{alts: []FuncAlt{{g: True, fn: a.fn, bind: a.bind}}})
		}
		if r == nil {
			r = x
		} else {
			r = Ite(a.g, x, r)
		}
	}
	if r == nil {
		return IntK(0)
	}
	return r
}

func (ex *Exec) funcFromTerm(t *Term) *FuncVal {
	out := &FuncVal{}
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g == False {
			return
		}
		if t.isK() {
			if t.k.Sign() == 0 {
				out.alts = append(out.alts, FuncAlt{g: g})
				return
			}
			if b, ok := ex.boxes[t.k.Int64()]; ok {
				if iv, ok := b.(*FuncVal); ok {
					for _, a := range iv.alts {
						a.g = And(g, a.g)
						out.alts = append(out.alts, a)
					}
					return
				}
			}
		}
		if t.op == OIte {
			rec(And(g, t.args[0]), t.args[1])
			rec(And(g, Not(t.args[0])), t.args[2])
			return
		}
		z := Eq(t, IntK(0))
		out.alts = append(out.alts, FuncAlt{g: And(g, z)})
		out.alts = append(out.alts, FuncAlt{g: And(g, Not(z)), opaque: t})
	}
	rec(True, t)
	return out
}

func (ex *Exec) unflatten(t types.Type, ts []*Term) (Val, []*Term) {
	if _, ok := ex.rep(t); ok {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrVal{arr: ts[0], off: ts[1], len: ts[2]}, ts[3:]
		}
		return &OpaqueVal{id: ts[0], typ: t}, ts[1:]
	case *types.Slice:
		return &SliceVal{elem: u.Elem(), obj: ts[0], off: ts[1], len: ts[2], cap: ts[3]}, ts[4:]
	case *types.Struct:
		s := &StructVal{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i], ts = ex.unflatten(u.Field(i).Type(), ts)
		}
		return s, ts
	case *types.Array:
		s := &ArrVal{e: make([]Val, u.Len())}
		for i := range s.e {
			s.e[i], ts = ex.unflatten(u.Elem(), ts)
		}
		return s, ts
	case *types.Interface:
		return ex.ifaceFromTerm(ts[0], t), ts[1:]
	case *types.Pointer:
		return ex.ptrFromTerm(ts[0], t), ts[1:]
	case *types.Signature:
		return ex.funcFromTerm(ts[0]), ts[1:]
	default:
		return &OpaqueVal{id: ts[0], typ: t}, ts[1:]
	}
}

// ---------------------------------------------------------------- zero and fresh values

func (ex *Exec) constStr(s string) *StrVal {
	if v, ok := ex.strMemo[s]; ok {
		return v
	}
	arr := ConstArr(ex.strArrSort(), KOf(ex.byteSort(), 0))
	if len(s) <= 4096 {
		for i := 0; i < len(s); i++ {
			arr = Store(arr, ex.ik(int64(i)), KOf(ex.byteSort(), int64(s[i])))
		}
	}
	c := s
	v := &StrVal{arr: arr, off: ex.ik(0), len: ex.ik(int64(len(s))), c: &c}
	ex.strMemo[s] = v
	return v
}

func (ex *Exec) zero(t types.Type) Val {
	if r, ok := ex.rep(t); ok {
		return r.k(bi0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ex.constStr("")
		}
		return &OpaqueVal{id: IntK(0), typ: t}
	case *types.Slice:
		return &SliceVal{elem: u.Elem(), obj: IntK(0), off: ex.ik(0), len: ex.ik(0), cap: ex.ik(0)}
	case *types.Struct:
		s := &StructVal{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			unsup("large array value %s", t)
		}
		s := &ArrVal{e: make([]Val, u.Len())}
		for i := range s.e {
			s.e[i] = ex.zero(u.Elem())
		}
		return s
	case *types.Interface:
		return &IfaceVal{alts: []IfaceAlt{{g: True}}}
	case *types.Pointer:
		return &PtrVal{alts: []PtrAlt{{g: True}}}
	case *types.Signature:
		return &FuncVal{alts: []FuncAlt{{g: True}}}
	case *types.Tuple:
		s := &TupleVal{}
		for i := 0; i < u.Len(); i++ {
			s.v = append(s.v, ex.zero(u.At(i).Type()))
		}
		return s
	default:
		return &OpaqueVal{id: IntK(0), typ: t}
	}
}

func (ex *Exec) freshTerm(name string, l Leaf) *Term {
	return withBounds(Fresh(name, l.sort), l.lo, l.hi)
}

// freshVal makes an unconstrained value of type t. Slices get objects with
// id < st.w (unknown). Pointers become opaque unless param handling is used.
func (ex *Exec) freshVal(st *State, name string, t types.Type) Val {
	if r, ok := ex.rep(t); ok {
		x := Fresh(name, r.sort())
		if r.kind == SInt {
			lo, hi := r.bounds()
			withBounds(x, lo, hi)
		}
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructVal{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := &ArrVal{e: make([]Val, u.Len())}
		for i := range s.e {
			s.e[i] = ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.Elem())
		}
		return s
	case *types.Tuple:
		s := &TupleVal{}
		for i := 0; i < u.Len(); i++ {
			s.v = append(s.v, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return s
	}
	var ts []*Term
	for _, l := range ex.leaves(t) {
		ts = append(ts, ex.freshTerm(name+l.path, l))
	}
	v, _ := ex.unflatten(t, ts)
	ex.assumeTyped(st, v)
	return v
}

// assumeTyped adds the representation facts of a value (slices).
func (ex *Exec) assumeTyped(st *State, v Val) {
	switch v := v.(type) {
	case *SliceVal:
		ix := v.len.sort
		z := KOf(ix, 0)
		ex.assumeRaw(And(ileq(z, v.off), ileq(z, v.len), ileq(v.len, v.cap), Le(IntK(0), v.obj), Lt(v.obj, st.w),
			ileq(v.cap, BVorInt(ix, maxLen)), ileq(v.off, BVorInt(ix, maxLen)),
			Implies(Eq(v.obj, IntK(0)), And(Eq(v.cap, z), Eq(v.off, z)))))
	case *StrVal:
		if v.c == nil {
			ix := v.len.sort
			z := KOf(ix, 0)
			ex.assumeRaw(And(ileq(z, v.off), ileq(z, v.len), ileq(v.len, BVorInt(ix, maxLen)), ileq(v.off, BVorInt(ix, maxLen))))
		}
	case *StructVal:
		for _, f := range v.f {
			ex.assumeTyped(st, f)
		}
	case *ArrVal:
		for _, f := range v.e {
			ex.assumeTyped(st, f)
		}
	}
}

func BVorInt(s *Sort, n *big.Int) *Term {
	if s.kind == SBV {
		return BVK(s.w, n)
	}
	return IntB(n)
}

// paramVal makes a symbolic parameter value: slices get their own distinct
// backing object, pointers get their own cell.
func (ex *Exec) paramVal(st *State, name string, t types.Type, depth int) Val {
	if _, ok := ex.rep(t); ok {
		return ex.freshVal(st, name, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ex.nextParamObj++
		ix := ex.idxSort()
		l := withBounds(Fresh(name+".len", ix), bi0, maxLen)
		c := withBounds(Fresh(name+".cap", ix), bi0, maxLen)
		nilb := Fresh(name+".isnil", BoolS)
		obj := Ite(nilb, IntK(0), IntK(int64(ex.nextParamObj)))
		v := &SliceVal{elem: u.Elem(), obj: obj, off: KOf(ix, 0), len: l, cap: c}
		ex.assumeRaw(And(ileq(KOf(ix, 0), l), ileq(l, c), ileq(c, BVorInt(ix, maxLen)), Implies(nilb, Eq(c, KOf(ix, 0)))))
		return v
	case *types.Struct:
		s := &StructVal{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.paramVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), depth)
		}
		return s
	case *types.Array:
		s := &ArrVal{e: make([]Val, u.Len())}
		for i := range s.e {
			s.e[i] = ex.paramVal(st, fmt.Sprintf("%s.%d", name, i), u.Elem(), depth)
		}
		return s
	case *types.Pointer:
		if depth > 2 {
			return ex.freshVal(st, name, t)
		}
		isn := Fresh(name+".isnil", BoolS)
		c := ex.newCell(st, u.Elem(), ex.paramVal(st, "*"+name, u.Elem(), depth+1))
		return &PtrVal{alts: []PtrAlt{{g: isn}, {g: Not(isn), loc: &Loc{kind: LCell, cell: c, typ: u.Elem()}}}}
	}
	return ex.freshVal(st, name, t)
}

// ---------------------------------------------------------------- merging

func (ex *Exec) iteVal(c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if p, ok := a.(*PoisonVal); ok {
		return p
	}
	if p, ok := b.(*PoisonVal); ok {
		return p
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return &PoisonVal{"sort mismatch"}
		}
		return Ite(c, x, y)
	case *StructVal:
		y, ok := b.(*StructVal)
		if !ok || len(x.f) != len(y.f) {
			return &PoisonVal{"struct mismatch"}
		}
		r := &StructVal{f: make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = ex.iteVal(c, x.f[i], y.f[i])
		}
		return r
	case *ArrVal:
		y := b.(*ArrVal)
		r := &ArrVal{e: make([]Val, len(x.e))}
		for i := range x.e {
			r.e[i] = ex.iteVal(c, x.e[i], y.e[i])
		}
		return r
	case *TupleVal:
		y := b.(*TupleVal)
		r := &TupleVal{v: make([]Val, len(x.v))}
		for i := range x.v {
			r.v[i] = ex.iteVal(c, x.v[i], y.v[i])
		}
		return r
	case *SliceVal:
		y, ok := b.(*SliceVal)
		if !ok {
			return &PoisonVal{"slice mismatch"}
		}
		if x.snap != y.snap {
			// nil slices carry no heap
			if y.obj.isK() && y.obj.k.Sign() == 0 {
				y = &SliceVal{elem: y.elem, obj: y.obj, off: y.off, len: y.len, cap: y.cap, snap: x.snap}
			} else if x.obj.isK() && x.obj.k.Sign() == 0 {
				x = &SliceVal{elem: x.elem, obj: x.obj, off: x.off, len: x.len, cap: x.cap, snap: y.snap}
			} else {
				return &PoisonVal{"slice snapshot mismatch"}
			}
		}
		r := &SliceVal{elem: x.elem, obj: Ite(c, x.obj, y.obj), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len), cap: Ite(c, x.cap, y.cap), snap: x.snap}
		return r
	case *StrVal:
		y, ok := b.(*StrVal)
		if !ok {
			return &PoisonVal{"str mismatch"}
		}
		return &StrVal{arr: Ite(c, x.arr, y.arr), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len)}
	case *PtrVal:
		y, ok := b.(*PtrVal)
		if !ok {
			return &PoisonVal{"ptr mismatch"}
		}
		r := &PtrVal{}
		add := func(g *Term, al PtrAlt) {
			g = And(g, al.g)
			if g == False {
				return
			}
			for i := range r.alts {
				o := r.alts[i]
				if o.loc == nil && al.loc == nil || o.loc != nil && al.loc != nil && (o.loc == al.loc || locKey(o.loc) == locKey(al.loc)) {
					r.alts[i].g = Or(o.g, g)
					return
				}
			}
			r.alts = append(r.alts, PtrAlt{g: g, loc: al.loc})
		}
		for _, al := range x.alts {
			add(c, al)
		}
		for _, al := range y.alts {
			add(Not(c), al)
		}
		return r
	case *IfaceVal:
		y, ok := b.(*IfaceVal)
		if !ok {
			return &PoisonVal{"iface mismatch"}
		}
		r := &IfaceVal{}
		add := func(g *Term, al IfaceAlt) {
			g = And(g, al.g)
			if g == False {
				return
			}
			for i := range r.alts {
				o := r.alts[i]
				if o.opaque == al.opaque && (o.typ == nil) == (al.typ == nil) && (o.typ == nil || types.Identical(o.typ, al.typ) && o.val == al.val) {
					r.alts[i].g = Or(o.g, g)
					return
				}
			}
			al.g = g
			r.alts = append(r.alts, al)
		}
		for _, al := range x.alts {
			add(c, al)
		}
		for _, al := range y.alts {
			add(Not(c), al)
		}
		return r
	case *FuncVal:
		y, ok := b.(*FuncVal)
		if !ok {
			return &PoisonVal{"func mismatch"}
		}
		r := &FuncVal{}
		for _, al := range x.alts {
			al.g = And(c, al.g)
			if al.g != False {
				r.alts = append(r.alts, al)
			}
		}
		for _, al := range y.alts {
			al.g = And(Not(c), al.g)
			if al.g != False {
				r.alts = append(r.alts, al)
			}
		}
		return r
	case *OpaqueVal:
		y, ok := b.(*OpaqueVal)
		if !ok {
			return &PoisonVal{"opaque mismatch"}
		}
		return &OpaqueVal{id: Ite(c, x.id, y.id), typ: x.typ}
	}
	return &PoisonVal{fmt.Sprintf("merge %T", a)}
}

// tagSnap marks every reference inside v as reading heap/cells from s.
func tagSnap(v Val, s *State) Val {
	switch x := v.(type) {
	case *StructVal:
		r := &StructVal{f: make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = tagSnap(x.f[i], s)
		}
		return r
	case *ArrVal:
		r := &ArrVal{e: make([]Val, len(x.e))}
		for i := range x.e {
			r.e[i] = tagSnap(x.e[i], s)
		}
		return r
	case *TupleVal:
		r := &TupleVal{v: make([]Val, len(x.v))}
		for i := range x.v {
			r.v[i] = tagSnap(x.v[i], s)
		}
		return r
	case *SliceVal:
		if x.snap != nil {
			return x
		}
		c := *x
		c.snap = s
		return &c
	case *PtrVal:
		r := &PtrVal{}
		for _, a := range x.alts {
			if a.loc != nil && a.loc.snap == nil {
				l := *a.loc
				l.snap = s
				a.loc = &l
			}
			r.alts = append(r.alts, a)
		}
		return r
	case *IfaceVal:
		r := &IfaceVal{}
		for _, a := range x.alts {
			if a.val != nil {
				a.val = tagSnap(a.val, s)
			}
			r.alts = append(r.alts, a)
		}
		return r
	}
	return v
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return strings.ReplaceAll(s, " ", "")
}
