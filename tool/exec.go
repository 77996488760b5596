package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc    *Term
	cells map[int]Val
	heap  map[string]*Term
	w     *Term // allocation watermark
	vals  map[ssa.Value]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, w: s.w}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.vals = make(map[ssa.Value]Val, len(s.vals))
	for k, v := range s.vals {
		n.vals[k] = v
	}
	return n
}

type Frame struct {
	fn      *ssa.Function
	args    []Val
	entry   *State // state at entry (for old_)
	rets    []retEdge
	depth   int
	caller  *Frame
	defers  []deferred
	li      *loopInfo
	stack   string
	results map[string]Val
}

type deferred struct {
	g    *Term
	call *ssa.CallCommon
	args []Val
	fnv  Val
}

type retEdge struct {
	st *State
	v  Val
}

type Obligation struct {
	name   string
	kind   string // ensures, assert, bounds, nil, panic, invariant-entry, ...
	fn     string
	pos    token.Position
	pc     *Term
	goal   *Term
	nAss   int
	status string
	solver string
	time   float64
	model  map[string]string
	clause string
}

type Exec struct {
	prog     *Program
	mode     string
	overflow bool
	leafMemo map[types.Type][]Leaf
	strMemo  map[string]*StrVal
	boxes    map[int64]Val
	boxIDs   map[string]int64
	boxFn    bool
	uniq     int

	nextParamObj int
	nextCell     int
	cellTyp      map[int]types.Type
	cellName     map[int]string
	globals      map[*ssa.Global]int
	initDone     map[*ssa.Package]bool
	tolerant     bool

	assumes                             []*Term
	obls                                []*Obligation
	pure                                int
	bound                               int // inside quantifier bodies
	dry                                 int // havoc-discovery runs
	houdini                             int
	root                                *Contract
	unroll                              int // bounded mode: unroll loops that have invariants too
	bmc                                 bool
	notes                               map[string]bool
	inlined                             map[string]bool
	modular                             map[string]bool
	hardEnd                             time.Time
	heapFrom                            map[*Term]heapOrigin
	loopsAuto, loopsUser, loopsUnrolled int
	invUsed                             map[string]bool
	frameSt                             *State
	specApps                            map[*Term]bool
	curFrame                            *Frame
	deadline                            func() bool
	steps                               int
	loopCand                            map[*ssa.BasicBlock]map[string]bool // surviving auto candidates per loop header
	paramInfo                           []paramInfo
	qcache                              map[string]bool
	remap                               int
	covers                              []*Term
	bmcCut                              bool
	renames                             map[string]string
	invAssign                           func(fr *Frame, L *Loop) (loopAssign, bool)
	guess                               func(fr *Frame, L *Loop, st *State, name string, t types.Type) (Val, bool)
	specAx                              []*Term
	entrySt                             *State
	prune                               bool // decide branches as they come
	rootArgs                            []Val
	prover                              *Prover
	specFuel                            int
}

type loopAssign struct {
	invs []*Clause
	dec  *Clause
}

type paramInfo struct {
	name string
	typ  types.Type
	val  Val
}

func NewExec(p *Program, mode string) *Exec {
	return &Exec{prog: p, mode: mode, leafMemo: map[types.Type][]Leaf{}, strMemo: map[string]*StrVal{},
		boxes: map[int64]Val{}, boxIDs: map[string]int64{}, cellTyp: map[int]types.Type{}, cellName: map[int]string{},
		globals: map[*ssa.Global]int{}, initDone: map[*ssa.Package]bool{}, notes: map[string]bool{},
		inlined: map[string]bool{}, modular: map[string]bool{}, invUsed: map[string]bool{}, overflow: true,
		specApps: map[*Term]bool{}, unroll: 40,
		loopCand: map[*ssa.BasicBlock]map[string]bool{}, qcache: map[string]bool{}}
}

func (ex *Exec) note(f string, a ...interface{}) { ex.notes[fmt.Sprintf(f, a...)] = true }

func (ex *Exec) newState() *State {
	return &State{pc: True, cells: map[int]Val{}, heap: map[string]*Term{}, w: IntK(100000), vals: map[ssa.Value]Val{}}
}

func (ex *Exec) newCell(st *State, t types.Type, v Val) int {
	ex.nextCell++
	ex.cellTyp[ex.nextCell] = t
	st.cells[ex.nextCell] = v
	return ex.nextCell
}

func (ex *Exec) assumeRaw(t *Term) {
	if ex.pure > 0 && len(t.fb) > 0 {
		return
	}
	for _, c := range conj(t) {
		if c != True && len(c.fb) == 0 {
			ex.assumes = append(ex.assumes, c)
		}
	}
}

func (ex *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	for _, c := range conj(t) {
		ex.assumeRaw(Implies(st.pc, c))
	}
}

func (ex *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if ex.pure > 0 || goal == True && kind != "ensures" && kind != "assert" && !strings.HasPrefix(kind, "inv") && kind != "requires" {
		if ex.pure == 0 && ex.dry == 0 {
			ex.prog.trivial++
		}
		return
	}
	if ex.dry == 0 {
		o := &Obligation{name: name, kind: kind, pos: ex.prog.fset.Position(pos), pc: st.pc, goal: goal, nAss: len(ex.assumes)}
		if ex.curFrame != nil {
			o.fn = shortFn(ex.curFrame.fn)
		}
		ex.obls = append(ex.obls, o)
	}
	// afterwards the fact may be used
	if !goal.hasQ || kind == "ensures" || kind == "assert" {
		ex.assume(st, goal)
	}
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/jcorbin/anansi/", "")
	s = strings.ReplaceAll(s, "github.com/jcorbin/", "")
	return s
}

// ---------------------------------------------------------------- merging

func (ex *Exec) merge(sts []*State) *State {
	live := sts[:0:0]
	for _, s := range sts {
		if s != nil && s.pc != False {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	// merge pairwise left to right
	acc := live[0]
	for _, s := range live[1:] {
		acc = ex.merge2(acc, s)
	}
	return acc
}

func (ex *Exec) merge2(a, b *State) *State {
	common, ra, rb := factor(a.pc, b.pc)
	ca := And(ra...)
	cb := And(rb...)
	sel := ca
	if cb.size < ca.size {
		sel = Not(cb)
	}
	n := &State{pc: And(append(append([]*Term{}, common...), Or(ca, cb))...)}
	n.w = a.w
	if a.w != b.w {
		// keep the larger when comparable, else ite
		d := Sub(a.w, b.w)
		if d.isK() {
			if d.k.Sign() < 0 {
				n.w = b.w
			}
		} else {
			n.w = Ite(sel, a.w, b.w)
		}
	}
	n.cells = make(map[int]Val, len(a.cells))
	for k, v := range a.cells {
		if v2, ok := b.cells[k]; ok {
			n.cells[k] = ex.iteVal(sel, v, v2)
		} else {
			n.cells[k] = v
		}
	}
	for k, v := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = v
		}
	}
	n.heap = make(map[string]*Term, len(a.heap))
	for k, v := range a.heap {
		if v2, ok := b.heap[k]; ok {
			n.heap[k] = mergeHeap(sel, v, v2)
		} else {
			n.heap[k] = mergeHeap(sel, v, ex.heap0(k, v.sort))
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = mergeHeap(sel, ex.heap0(k, v.sort), v)
		}
	}
	n.vals = make(map[ssa.Value]Val, len(a.vals))
	for k, v := range a.vals {
		if v2, ok := b.vals[k]; ok {
			n.vals[k] = ex.iteVal(sel, v, v2)
		} else {
			n.vals[k] = v
		}
	}
	for k, v := range b.vals {
		if _, ok := a.vals[k]; !ok {
			n.vals[k] = v
		}
	}
	return n
}

// mergeHeap merges two heap arrays, factoring stores on equal object ids so
// that per-object contents merge rather than whole heaps.
func mergeHeap(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// stores above the common ancestor
	type ent struct{ o, v *Term }
	inA := map[*Term]bool{a: true}
	for t := a; t.op == OStore; {
		t = t.args[0]
		inA[t] = true
	}
	x := b
	for !inA[x] && x.op == OStore {
		x = x.args[0]
	}
	if !inA[x] {
		return Ite(c, a, b)
	}
	konst := true
	peel := func(t *Term) []ent {
		var es []ent
		for t != x {
			es = append([]ent{{t.args[1], t.args[2]}}, es...)
			konst = konst && t.args[1].isK()
			t = t.args[0]
		}
		return es
	}
	ea, eb := peel(a), peel(b)
	if konst {
		objs := map[*Term]bool{}
		var order []*Term
		for _, l := range [][]ent{eb, ea} {
			for _, e := range l {
				if !objs[e.o] {
					objs[e.o] = true
					order = append(order, e.o)
				}
			}
		}
		r := x
		for _, o := range order {
			r = Store(r, o, Ite(c, Select(a, o), Select(b, o)))
		}
		return r
	}
	// align the stores: a side without a store left rewrites what it has at
	// its last object, which changes nothing
	root := func(es []ent) *Term {
		o := es[0].o
		for o.op == OIte {
			o = o.args[1]
		}
		return o
	}
	var la, lb *Term
	if len(ea) > 0 {
		lb = root(ea)
	}
	if len(eb) > 0 {
		la = root(eb)
	}
	r, ra, rb := x, x, x
	for i := 0; i < len(ea) || i < len(eb); i++ {
		var oa, va, ob, vb *Term
		if i < len(ea) {
			oa, va = ea[i].o, ea[i].v
			ra = Store(ra, oa, va)
			la = oa
		} else {
			oa, va = la, Select(ra, la)
		}
		if i < len(eb) {
			ob, vb = eb[i].o, eb[i].v
			rb = Store(rb, ob, vb)
			lb = ob
		} else {
			ob, vb = lb, Select(rb, lb)
		}
		r = Store(r, Ite(c, oa, ob), Ite(c, va, vb))
	}
	return r
}

// ---------------------------------------------------------------- heap

func (ex *Exec) heapKey(elem types.Type, l Leaf) string { return typeKey(elem) + l.path }

func (ex *Exec) heap0(key string, s *Sort) *Term { return Var("H0:"+key, s) }

func (ex *Exec) heapSort(l Leaf) *Sort { return ArrS(IntS, ArrS(ex.idxSort(), l.sort)) }

func (ex *Exec) heapGet(st *State, elem types.Type, l Leaf) *Term {
	key := ex.heapKey(elem, l)
	if h, ok := st.heap[key]; ok {
		return h
	}
	return ex.heap0(key, ex.heapSort(l))
}

func (ex *Exec) heapSet(st *State, elem types.Type, l Leaf, h *Term) {
	st.heap[ex.heapKey(elem, l)] = h
}

func (ex *Exec) loadElem(st *State, elem types.Type, obj, idx *Term) Val {
	var ts []*Term
	for _, l := range ex.leaves(elem) {
		x := Select(Select(ex.heapGet(st, elem, l), obj), idx)
		if x.op == OSelect || x.op == OIte {
			withBounds(x, l.lo, l.hi)
		}
		boundIte(x, l, 0)
		ts = append(ts, x)
	}
	v, _ := ex.unflatten(elem, ts)
	switch elem.Underlying().(type) {
	case *types.Slice, *types.Struct:
		ex.assumeTyped(st, v)
	}
	return v
}

// boundIte pushes leaf bounds to the select leaves of an ite tree.
func boundIte(x *Term, l Leaf, d int) {
	if l.lo == nil || d > 12 {
		return
	}
	if x.op == OSelect {
		withBounds(x, l.lo, l.hi)
	}
	if x.op == OIte {
		boundIte(x.args[1], l, d+1)
		boundIte(x.args[2], l, d+1)
	}
}

func (ex *Exec) storeElem(st *State, elem types.Type, obj, idx *Term, v Val) {
	ts := ex.flatten(v, elem)
	for i, l := range ex.leaves(elem) {
		h := ex.heapGet(st, elem, l)
		ex.heapSet(st, elem, l, Store(h, obj, Store(Select(h, obj), idx, ts[i])))
	}
}

// newObj allocates a fresh backing object whose leaves are given by init.
func (ex *Exec) newObj(st *State, elem types.Type, init func(i int, l Leaf) *Term) *Term {
	o := st.w
	st.w = AddK(st.w, 1)
	for i, l := range ex.leaves(elem) {
		h := ex.heapGet(st, elem, l)
		ex.heapSet(st, elem, l, Store(h, o, init(i, l)))
	}
	return o
}

func (ex *Exec) zeroLeaf(l Leaf) *Term {
	return ConstArr(ArrS(ex.idxSort(), l.sort), KOf(l.sort, 0))
}

// ---------------------------------------------------------------- pointers

func (ex *Exec) loadLoc(st *State, l *Loc, t types.Type) Val {
	src := st
	if l.snap != nil {
		src = l.snap
	}
	var v Val
	switch l.kind {
	case LCell:
		cv, ok := src.cells[l.cell]
		if !ok {
			// cell created after the snapshot or lazily (globals)
			cv, ok = st.cells[l.cell]
			if !ok {
				unsup("load of unknown cell %d", l.cell)
			}
		}
		v = ex.pathGet(cv, l.path)
	case LElem:
		v = ex.pathGet(ex.loadElem(src, l.elem, l.obj, l.idx), l.path)
	case LArr:
		if l.n > 256 {
			unsup("load of large array")
		}
		a := &ArrVal{}
		for i := int64(0); i < l.n; i++ {
			a.e = append(a.e, ex.loadElem(src, l.elem, l.obj, iadd(l.idx, ex.ik(i))))
		}
		v = a
	default:
		unsup("load through opaque pointer")
	}
	if p, ok := v.(*PoisonVal); ok {
		unsup("poison value loaded: %s", p.why)
	}
	if l.snap != nil {
		v = tagSnap(v, l.snap)
	}
	return v
}

func (ex *Exec) pathGet(v Val, path []PathElem) Val {
	for i, p := range path {
		switch x := v.(type) {
		case *StructVal:
			v = x.f[p.field]
		case *ArrVal:
			if p.idx.isK() {
				n := p.idx.k.Int64()
				if n < 0 || n >= int64(len(x.e)) {
					return x.e[0]
				}
				v = x.e[n]
				continue
			}
			rest := path[i+1:]
			if len(rest) == 0 {
				if v, ok := ex.tableGet(p.idx, x.e); ok {
					return v
				}
			}
			var r Val
			for j := len(x.e) - 1; j >= 0; j-- {
				e := ex.pathGet(x.e[j], rest)
				if r == nil {
					r = e
				} else {
					r = ex.iteVal(Eq(p.idx, KOf(p.idx.sort, int64(j))), e, r)
				}
			}
			return r
		case *PoisonVal:
			return x
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func (ex *Exec) pathSet(v Val, path []PathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructVal:
		r := &StructVal{f: append([]Val{}, x.f...)}
		r.f[p.field] = ex.pathSet(x.f[p.field], path[1:], nv)
		return r
	case *ArrVal:
		r := &ArrVal{e: append([]Val{}, x.e...)}
		for j := range x.e {
			e := Eq(p.idx, KOf(p.idx.sort, int64(j)))
			if e == False {
				continue
			}
			r.e[j] = ex.iteVal(e, ex.pathSet(x.e[j], path[1:], nv), x.e[j])
		}
		return r
	}
	unsup("pathSet into %T", v)
	return nil
}

func (ex *Exec) storeLoc(st *State, g *Term, l *Loc, v Val) {
	if l.snap != nil {
		unsup("store through snapshot")
	}
	switch l.kind {
	case LCell:
		old, ok := st.cells[l.cell]
		if !ok {
			unsup("store to unknown cell")
		}
		nv := ex.pathSet(old, l.path, v)
		st.cells[l.cell] = ex.iteVal(g, nv, old)
	case LElem:
		old := ex.loadElem(st, l.elem, l.obj, l.idx)
		nv := ex.pathSet(old, l.path, v)
		if g != True {
			nv = ex.iteVal(g, nv, old)
		}
		ex.storeElem(st, l.elem, l.obj, l.idx, nv)
	case LArr:
		a, ok := v.(*ArrVal)
		if !ok {
			unsup("array store %T", v)
		}
		for i := range a.e {
			idx := iadd(l.idx, ex.ik(int64(i)))
			nv := a.e[i]
			if g != True {
				nv = ex.iteVal(g, nv, ex.loadElem(st, l.elem, l.obj, idx))
			}
			ex.storeElem(st, l.elem, l.obj, idx, nv)
		}
	default:
		unsup("store through opaque pointer")
	}
}

func (ex *Exec) load(st *State, p *PtrVal, t types.Type, pos token.Pos) Val {
	ex.nilCheck(st, p, pos)
	var r Val
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		if a.loc == nil {
			continue
		}
		v := ex.loadLoc(st, a.loc, t)
		if r == nil {
			r = v
		} else {
			r = ex.iteVal(a.g, v, r)
		}
	}
	if r == nil {
		st.pc = False
		return ex.zero(t)
	}
	return r
}

func (ex *Exec) nilCheck(st *State, p *PtrVal, pos token.Pos) {
	for _, a := range p.alts {
		if a.loc == nil {
			ex.oblige(st, "nil", "nil dereference", pos, Not(a.g))
		}
	}
}

func (ex *Exec) store(st *State, p *PtrVal, v Val, pos token.Pos) {
	ex.nilCheck(st, p, pos)
	n := 0
	for _, a := range p.alts {
		if a.loc != nil {
			n++
		}
	}
	for _, a := range p.alts {
		if a.loc == nil {
			continue
		}
		g := a.g
		if n == 1 {
			g = True
		}
		ex.storeLoc(st, g, a.loc, v)
	}
}

func subLoc(l *Loc, pe PathElem) *Loc {
	n := *l
	n.path = append(append([]PathElem{}, l.path...), pe)
	return &n
}

// ---------------------------------------------------------------- values of ssa operands

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return ex.constVal(c)
	case *ssa.Global:
		return &PtrVal{alts: []PtrAlt{{g: True, loc: ex.globalLoc(st, c)}}}
	case *ssa.Function:
		return &FuncVal{alts: []FuncAlt{{g: True, fn: c}}}
	case *ssa.Builtin:
		return &FuncVal{alts: []FuncAlt{{g: True, bi: c}}}
	}
	r, ok := st.vals[v]
	if !ok {
		unsup("no value for %s = %s in %s", v.Name(), v, v.Parent())
	}
	if p, ok := r.(*PoisonVal); ok {
		unsup("poison value %s (%s)", v.Name(), p.why)
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	if r, ok := ex.rep(c.Type()); ok {
		if r.kind == SBool {
			return BoolK(constant.BoolVal(c.Value))
		}
		iv := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return r.k(n)
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return ex.constStr(constant.StringVal(c.Value))
		}
		// float/complex constants
		return &OpaqueVal{id: ex.box("k:"+c.Value.ExactString()+typeKey(c.Type()), nil), typ: c.Type()}
	}
	unsup("const %s", c)
	return nil
}

func (ex *Exec) globalLoc(st *State, g *ssa.Global) *Loc {
	t := g.Type().(*types.Pointer).Elem()
	id, ok := ex.globals[g]
	if !ok {
		ex.nextCell++
		id = ex.nextCell
		ex.globals[g] = id
		ex.cellTyp[id] = t
		ex.cellName[id] = g.String()
	}
	if _, ok := st.cells[id]; !ok {
		st.cells[id] = ex.globalInit(g, t)
	}
	return &Loc{kind: LCell, cell: id, typ: t}
}

// globalInit gives the value of a global that package initialisation did not
// already put in the base state.
func (ex *Exec) globalInit(g *ssa.Global, t types.Type) Val {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		// distinct sentinel errors
		return &IfaceVal{alts: []IfaceAlt{{g: True, opaque: ex.box("errglobal:"+g.String(), nil)}}}
	}
	if ex.prog.repoPkg(g.Pkg) || ex.prog.initPure(g.Pkg) {
		return ex.zero(t)
	}
	return ex.zero(t)
}

// ---------------------------------------------------------------- functions

const maxDepth = 40

func (ex *Exec) runFunc(st *State, fn *ssa.Function, args []Val, bind []Val, caller *Frame) (*State, Val) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > maxDepth {
		unsup("inline depth exceeded at %s", fn)
	}
	fr := &Frame{fn: fn, args: args, depth: depth, caller: caller}
	if ex.pure == 0 {
		fr.entry = st.clone()
	}
	fr.li = ex.prog.loops(fn)
	savedVals := st.vals
	st.vals = map[ssa.Value]Val{}
	for i, p := range fn.Params {
		st.vals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.vals[fv] = bind[i]
	}
	prev := ex.curFrame
	ex.curFrame = fr
	ex.execBody(fr, nil, fn.Blocks[0], st)
	ex.curFrame = prev
	if len(fr.rets) == 0 {
		return nil, nil
	}
	// merge returns
	var sts []*State
	for i := range fr.rets {
		s := fr.rets[i].st
		s.vals = map[ssa.Value]Val{nil: fr.rets[i].v}
		sts = append(sts, s)
	}
	m := ex.merge(sts)
	if m == nil {
		return nil, nil
	}
	if m == sts[0] && len(sts) == 1 {
		m = m.clone()
	}
	rv := m.vals[nil]
	m.vals = savedVals
	return m, rv
}

// execBody runs the blocks whose innermost loop is L (nil: the function),
// starting at start with state st (phis already set). It returns the back
// edges to L's header and the edges leaving L.
func (ex *Exec) execBody(fr *Frame, L *Loop, start *ssa.BasicBlock, st *State) (back []edge, exits []exitEdge) {
	in := map[*ssa.BasicBlock][]edge{}
	li := fr.li
	inL := func(b *ssa.BasicBlock) bool { return L == nil || L.blocks[b] }
	route := func(from, to *ssa.BasicBlock, s *State) {
		if s == nil || s.pc == False {
			return
		}
		if L != nil && to == L.header {
			back = append(back, edge{from, s})
		} else if inL(to) {
			in[to] = append(in[to], edge{from, s})
		} else {
			exits = append(exits, exitEdge{to, edge{from, s}})
		}
	}
	for _, b := range li.rpo {
		if !inL(b) {
			continue
		}
		if b == start {
			ex.execBlock(fr, b, st, route)
			continue
		}
		lb := li.inner[b]
		if lb != L {
			// nested loop: handle at its header if its parent is L
			if lb.header == b && lb.parent == L {
				es := in[b]
				if len(es) == 0 {
					continue
				}
				for _, x := range ex.execLoop(fr, lb, es) {
					route(x.e.from, x.to, x.e.st)
				}
			}
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		s := ex.enter(b, es)
		if s == nil {
			continue
		}
		ex.execBlock(fr, b, s, route)
	}
	return
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}
type exitEdge struct {
	to *ssa.BasicBlock
	e  edge
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// enter merges incoming edges, evaluating phis.
func (ex *Exec) enter(b *ssa.BasicBlock, es []edge) *State {
	phis := phisOf(b)
	var sts []*State
	for _, e := range es {
		s := e.st
		if s.pc == False {
			continue
		}
		s = s.clone()
		pi := -1
		// an edge may appear more than once in Preds; the value is then the same
		for i, p := range b.Preds {
			if p == e.from {
				pi = i
				break
			}
		}
		vs := make([]Val, len(phis))
		for i, p := range phis {
			v, ok := ex.tryVal(e.st, p.Edges[pi])
			if !ok {
				v = &PoisonVal{"phi edge"}
			}
			vs[i] = v
		}
		for i, p := range phis {
			s.vals[p] = vs[i]
		}
		sts = append(sts, s)
	}
	return ex.merge(sts)
}

func (ex *Exec) tryVal(st *State, v ssa.Value) (r Val, ok bool) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return ex.val(st, v), true
	}
	r, ok = st.vals[v]
	return
}

func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, s *State)) {
	if !ex.hardEnd.IsZero() && time.Now().After(ex.hardEnd) {
		unsup("generating obligations takes too long")
	}
	for _, ins := range b.Instrs {
		if st.pc == False {
			return
		}
		ex.steps++
		if ex.steps&0xff == 0 && ex.deadline != nil && ex.deadline() {
			unsup("execution budget exceeded")
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			route(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := ex.val(st, ins.Cond).(*Term)
			if c == True {
				route(b, b.Succs[0], st)
				return
			}
			if c == False {
				route(b, b.Succs[1], st)
				return
			}
			if ex.prune && ex.pure == 0 {
				d := ex.quickMany(st.pc, []*Term{c, Not(c)})
				if d[0] {
					route(b, b.Succs[0], st)
					return
				}
				if d[1] {
					route(b, b.Succs[1], st)
					return
				}
			}
			t := st.clone()
			t.pc = And(st.pc, c)
			route(b, b.Succs[0], t)
			f := st
			f.pc = And(st.pc, Not(c))
			route(b, b.Succs[1], f)
			return
		case *ssa.Return:
			var v Val
			switch len(ins.Results) {
			case 0:
			case 1:
				v = ex.val(st, ins.Results[0])
			default:
				tv := &TupleVal{}
				for _, r := range ins.Results {
					tv.v = append(tv.v, ex.val(st, r))
				}
				v = tv
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			return
		case *ssa.Panic:
			ex.panicAt(fr, st, "explicit panic", ins.Pos())
			return
		default:
			st2 := ex.execInstr(fr, st, ins)
			if st2 == nil {
				return
			}
			st = st2
		}
	}
}

func (ex *Exec) panicAt(fr *Frame, st *State, what string, pos token.Pos) {
	if ex.pure > 0 {
		return
	}
	if ex.root != nil && ex.root.panics != nil {
		// panic allowed exactly when the panics clause holds on entry
		ex.oblige(st, "panic", "panic only when specified", pos, ex.rootPanics())
		return
	}
	ex.oblige(st, "panic", what, pos, False)
}
