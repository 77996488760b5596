package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*Loop
	loops []*Loop
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{inner: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byH := map[*ssa.BasicBlock]*Loop{}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		pos[b] = i
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					li.loops = append(li.loops, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			} else if pos[s] <= pos[b] {
				li.loops = nil
				li.inner = nil
				return li // irreducible
			}
		}
	}
	sort.Slice(li.loops, func(i, j int) bool { return li.loops[i].header.Index < li.loops[j].header.Index })
	for i, l := range li.loops {
		l.ord = i
	}
	// nesting: parent = smallest strictly containing loop
	for _, l := range li.loops {
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] && m.header != l.header {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
		for b := range l.blocks {
			if c := li.inner[b]; c == nil || len(l.blocks) < len(c.blocks) {
				li.inner[b] = l
			}
		}
	}
	return li
}

// ---------------------------------------------------------------- loop execution

func (ex *Exec) execLoop(fr *Frame, L *Loop, es []edge) []exitEdge {
	st := ex.enter(L.header, es)
	if st == nil {
		return nil
	}
	invs, dec := ex.loopClauses(fr, L)
	if len(invs) == 0 || ex.bmc {
		// try unrolling
		ex0 := ex.mark()
		out, ok := ex.unrollLoop(fr, L, st.clone(), ex.unrollMax(L, len(invs) > 0))
		if ok {
			if ex.dry == 0 {
				ex.loopsUnrolled++
			}
			return out
		}
		ex.reset(ex0)
		if ex.pure > 0 {
			unsup("unbounded loop in specification code %s", fr.fn)
		}
	}
	return ex.invLoop(fr, L, st, invs, dec)
}

func (ex *Exec) unrollMax(L *Loop, hasInv bool) int {
	if ex.bmc {
		return ex.unroll
	}
	return 300
}

type exMark struct{ a, o int }

func (ex *Exec) mark() exMark { return exMark{len(ex.assumes), len(ex.obls)} }
func (ex *Exec) reset(m exMark) {
	ex.assumes = ex.assumes[:m.a]
	ex.obls = ex.obls[:m.o]
}

// unrollLoop executes the loop while its continuation is decided by constant
// folding. Outside bounded mode it gives up as soon as an iteration's back
// edge condition is not decided after a few rounds.
func (ex *Exec) unrollLoop(fr *Frame, L *Loop, st *State, max int) (out []exitEdge, ok bool) {
	if !ex.bmc {
		// cheap pre-check: if the exit test does not fold on the first
		// iteration, the loop is not statically bounded
		if !ex.staticTest(fr, L, st) {
			return nil, false
		}
	}
	for it := 0; ; it++ {
		back, exits := ex.execBody(fr, L, L.header, st.clone())
		out = append(out, exits...)
		if len(back) == 0 {
			return out, true
		}
		if it >= max {
			if ex.bmc {
				ex.bmcCut = true
				return out, true // paths that iterate further are cut off (bounded)
			}
			return nil, false
		}
		st = ex.enter(L.header, back)
		if st == nil {
			return out, true
		}
		if !ex.bmc && !ex.staticTest(fr, L, st) {
			return nil, false
		}
	}
}

// staticTest: some exit test of the loop header folds to a constant.
func (ex *Exec) staticTest(fr *Frame, L *Loop, st *State) bool {
	m := ex.mark()
	defer ex.reset(m)
	ex.dry++
	defer func() { ex.dry-- }()
	b := L.header
	s := st.clone()
	// execute only straight-line header; follow single jumps
	for hops := 0; hops < 4; hops++ {
		last := b.Instrs[len(b.Instrs)-1]
		iff, isIf := last.(*ssa.If)
		var term *ssa.BasicBlock
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, u := r.(unsupported); u {
						ok = false
						return
					}
					panic(r)
				}
			}()
			for _, ins := range b.Instrs[:len(b.Instrs)-1] {
				switch ins.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					continue
				}
				s = ex.execInstr(fr, s, ins)
				if s == nil {
					ok = false
					return
				}
			}
			if isIf {
				c, _ := ex.val(s, iff.Cond).(*Term)
				if c == True || c == False {
					return
				}
				ok = false
			}
		}()
		if !ok {
			return false
		}
		if isIf {
			return true
		}
		if len(b.Succs) != 1 || !L.blocks[b.Succs[0]] {
			return true
		}
		term = b.Succs[0]
		if term == L.header || len(term.Preds) != 1 {
			return false
		}
		b = term
	}
	return false
}

// havocSet describes what a loop may change.
type havocSet struct {
	phis  map[*ssa.Phi]map[int]bool // leaf indexes; -1 = everything
	cells map[int]map[int]bool
	heap  map[string]*heapHavoc
	w     bool
	eobjs []*Term
	inv   []*Term // objects written that are fixed before the loop
	mf0   int
}

// heapOrigin: where the contents of memory after a loop come from.
type heapOrigin struct {
	old  *Term
	objs []*Term
}

// innerObjs guesses the objects that inner loops write.
func (ex *Exec) innerObjs(h, base *Term, hs *havocSet) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == base || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OStore:
			for _, o := range iteLeaves(t.args[1]) {
				if o.mf <= hs.mf0 {
					hs.inv = append(hs.inv, o)
				}
			}
			rec(t.args[0])
		case OIte:
			rec(t.args[1])
			rec(t.args[2])
		default:
			if f, ok := ex.heapFrom[t]; ok {
				for _, o := range f.objs {
					if o.mf <= hs.mf0 {
						hs.inv = append(hs.inv, o)
					}
				}
				rec(f.old)
			}
		}
	}
	rec(h)
}

type heapHavoc struct {
	sort *Sort
	all  bool
	objs []*Term
}

func (ex *Exec) invLoop(fr *Frame, L *Loop, entry *State, invs []*Clause, dec *Clause) []exitEdge {
	phis := phisOf(L.header)
	hs := &havocSet{phis: map[*ssa.Phi]map[int]bool{}, cells: map[int]map[int]bool{}, heap: map[string]*heapHavoc{}, mf0: freshN}

	// 1. discover the havoc set
	for round := 0; ; round++ {
		if round > 60 {
			unsup("havoc set does not stabilise in %s", fr.fn)
		}
		m := ex.mark()
		ex.dry++
		saveRets := fr.rets
		saveDef := fr.defers
		hst := ex.havoc(fr, L, entry, hs, phis)
		mf := freshN
		back, _ := ex.execBody(fr, L, L.header, hst.clone())
		fr.rets = saveRets
		fr.defers = saveDef
		var bst *State
		if len(back) > 0 {
			bst = ex.enter(L.header, back)
		}
		ex.dry--
		ex.reset(m)
		if bst == nil {
			break
		}
		if !ex.growHavoc(hs, hst, bst, phis, mf) {
			break
		}
	}

	hs.inv = dedupe(hs.inv)
	sortTerms(hs.inv)
	hs.eobjs = ex.frameObjs(hs, entry)

	// 2. automatic candidate invariants (Houdini)
	cands := ex.candidates(fr, L, entry, hs, phis)
	surv := ex.houdiniRun(fr, L, entry, hs, phis, invs, cands)

	// 3. real run
	loopName := fmt.Sprintf("%s.loop%d", shortFn(fr.fn), L.ord)
	pos := loopPos(L)
	for _, c := range invs {
		g := ex.evalInv(fr, L, entry, entry, c)
		ex.obligeSplit(entry, "inv-entry", loopName+" "+c.name+" holds on entry", pos, g)
	}
	hst := ex.havoc(fr, L, entry, hs, phis)
	W0 := entry.w
	ex.assumeFrames(hs, entry, hst)
	for _, c := range surv {
		ex.assume(hst, c.f(hst))
	}
	for _, c := range invs {
		ex.assume(hst, ex.evalInv(fr, L, hst, entry, c))
	}
	if ex.dry == 0 {
		ex.covers = append(ex.covers, hst.pc)
	}
	var m0 *Term
	if dec != nil {
		m0 = ex.evalMeasure(fr, L, hst, entry, dec)
	}
	hcopy := hst.clone()
	back, exits := ex.execBody(fr, L, L.header, hst)
	if len(back) > 0 {
		bst := ex.enter(L.header, back)
		if bst != nil && bst.pc != False {
			for _, c := range invs {
				g := ex.evalInv(fr, L, bst, entry, c)
				ex.obligeSplit(bst, "inv-preserved", loopName+" "+c.name+" preserved", pos, g)
			}
			for _, c := range surv {
				ex.oblige(bst, "inv-auto", loopName+" "+c.name+" preserved", pos, c.f(bst))
			}
			ex.frameObl(hs, hcopy, bst, W0, loopName, pos)
			if ex.dry == 0 {
				if m0 != nil {
					m1 := ex.evalMeasure(fr, L, bst, entry, dec)
					ex.oblige(bst, "decreases", loopName+" terminates", pos, And(ileq(KOf(m0.sort, 0), m0), iltq(m1, m0)))
				} else {
					ex.autoMeasure(fr, L, hcopy, bst, entry, phis, loopName, pos)
				}
			}
		}
	}
	if ex.dry == 0 {
		if len(invs) > 0 {
			ex.loopsUser++
		} else {
			ex.loopsAuto++
		}
	}
	return exits
}

func loopPos(L *Loop) token.Pos {
	for _, b := range []*ssa.BasicBlock{L.header} {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	for b := range L.blocks {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (ex *Exec) obligeSplit(st *State, kind, name string, pos token.Pos, g *Term) {
	ex.oblige(st, kind, name, pos, g)
}

// havoc builds the arbitrary-iteration state at the loop header.
func (ex *Exec) havoc(fr *Frame, L *Loop, entry *State, hs *havocSet, phis []*ssa.Phi) *State {
	st := entry.clone()
	if hs.w {
		st.w = Fresh("W", IntS)
		if entry.w.lo != nil {
			withBounds(st.w, entry.w.lo, nil)
		}
		ex.assumeRaw(Le(entry.w, st.w))
	}
	for _, p := range phis {
		if lv := hs.phis[p]; lv != nil {
			st.vals[p] = ex.havocLeaves(st, "h."+nameOr(p.Comment, p.Name()), entry.vals[p], p.Type(), lv)
		}
	}
	var cids []int
	for c := range hs.cells {
		cids = append(cids, c)
	}
	sort.Ints(cids)
	for _, c := range cids {
		st.cells[c] = ex.havocLeaves(st, "h.c"+nameOr(ex.cellName[c], fmt.Sprint(c)), entry.cells[c], ex.cellTyp[c], hs.cells[c])
	}
	var keys []string
	for k := range hs.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		hh := hs.heap[k]
		old, ok := st.heap[k]
		if !ok {
			// not touched before the loop
			old = ex.heap0(k, hh.sort)
		}
		if hh.all {
			st.heap[k] = Fresh("H:"+k, old.sort)
			if ex.heapFrom == nil {
				ex.heapFrom = map[*Term]heapOrigin{}
			}
			ex.heapFrom[st.heap[k]] = heapOrigin{old, hs.eobjs}
		} else {
			h := old
			for _, o := range hh.objs {
				h = Store(h, o, Fresh("H:"+k+".obj", old.sort.elem))
			}
			st.heap[k] = h
		}
	}
	return st
}

func nameOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (ex *Exec) havocLeaves(st *State, name string, v Val, t types.Type, lv map[int]bool) Val {
	if _, ok := v.(*PoisonVal); ok {
		return v
	}
	if hasRef(t) && lv != nil {
		// aggregates containing pointers/functions: havoc leafwise but keep
		// unhavocked leaves
		switch x := v.(type) {
		case *PtrVal, *FuncVal:
			unsup("loop changes a pointer or function variable (%s)", name)
		case *IfaceVal:
			_ = x
			nv := ex.freshVal(st, name, t)
			return nv
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		return ex.freshVal(st, name, t)
	}
	ts := ex.flatten(v, t)
	ls := ex.leaves(t)
	nt := make([]*Term, len(ts))
	for i := range ts {
		if lv[i] || lv[-1] {
			nt[i] = ex.freshTerm(name+ls[i].path, ls[i])
		} else {
			nt[i] = ts[i]
		}
	}
	nv, _ := ex.unflatten(t, nt)
	nv = copySnaps(nv, v)
	ex.assumeTyped(st, nv)
	return nv
}

// copySnaps keeps snapshot tags of unchanged structure.
func copySnaps(n, o Val) Val {
	switch x := n.(type) {
	case *SliceVal:
		if y, ok := o.(*SliceVal); ok && y.snap != nil {
			c := *x
			c.snap = y.snap
			return &c
		}
	case *StructVal:
		if y, ok := o.(*StructVal); ok {
			for i := range x.f {
				x.f[i] = copySnaps(x.f[i], y.f[i])
			}
		}
	}
	return n
}

func hasRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRef(u.Elem())
	}
	return false
}

func (ex *Exec) growHavoc(hs *havocSet, hst, bst *State, phis []*ssa.Phi, mf int) bool {
	grew := false
	diff := func(get func() map[int]bool, set func(map[int]bool), a, b Val, t types.Type) {
		if a == b {
			return
		}
		if _, ok := a.(*PoisonVal); ok {
			return
		}
		if p, ok := b.(*PoisonVal); ok {
			_ = p
			return
		}
		var ta, tb []*Term
		ta = ex.flatten(a, t)
		tb = ex.flatten(b, t)
		m := get()
		for i := range ta {
			if ta[i] != tb[i] && !m[i] {
				if m == nil {
					m = map[int]bool{}
				}
				m[i] = true
				grew = true
				set(m)
			}
		}
	}
	for _, p := range phis {
		p := p
		diff(func() map[int]bool { return hs.phis[p] }, func(m map[int]bool) { hs.phis[p] = m }, hst.vals[p], bst.vals[p], p.Type())
	}
	for c, v := range hst.cells {
		c := c
		if nv, ok := bst.cells[c]; ok {
			diff(func() map[int]bool { return hs.cells[c] }, func(m map[int]bool) { hs.cells[c] = m }, v, nv, ex.cellTyp[c])
		}
	}
	if !hs.w && bst.w != hst.w {
		hs.w = true
		grew = true
	}
	for k, h := range bst.heap {
		base, ok := hst.heap[k]
		if !ok {
			base = ex.heap0(k, h.sort)
			hst.heap[k] = base
			if h != base {
				// make the key visible at entry so that havoc covers it
			}
		}
		if h == base {
			continue
		}
		hh := hs.heap[k]
		if hh == nil {
			hh = &heapHavoc{sort: h.sort}
			hs.heap[k] = hh
			grew = true
		}
		objs := map[*Term]bool{}
		ok = collectObjs(h, base, objs, map[*Term]bool{})
		if !ok {
			ex.innerObjs(h, base, hs)
		}
		for o := range objs {
			for _, o := range iteLeaves(o) {
				if o.mf <= hs.mf0 {
					hs.inv = append(hs.inv, o)
				}
			}
		}
		if hh.all {
			continue
		}
		for o := range objs {
			if o.mf > mf || !ok {
				ok = false
				break
			}
		}
		if !ok || hs.w && anyVar(objs, hst) {
			hh.all = true
			grew = true
			continue
		}
		var os []*Term
		for o := range objs {
			os = append(os, o)
		}
		sortTerms(os)
		for _, o := range os {
			if dependsOnHavoc(o, hs, hst, phis, ex) {
				hh.all = true
				grew = true
				break
			}
			found := false
			for _, p := range hh.objs {
				if p == o {
					found = true
				}
			}
			if !found {
				hh.objs = append(hh.objs, o)
				grew = true
			}
		}
	}
	return grew
}

func anyVar(objs map[*Term]bool, hst *State) bool {
	for o := range objs {
		if hst.w.op == OVar && containsVar(o, hst.w) {
			return true
		}
	}
	return false
}

func containsVar(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t] || t.mf < v.mf {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// dependsOnHavoc: the object id mentions a symbol havocked for this loop.
func dependsOnHavoc(o *Term, hs *havocSet, hst *State, phis []*ssa.Phi, ex *Exec) bool {
	for _, p := range phis {
		if lv := hs.phis[p]; lv != nil {
			ts := ex.flatten(hst.vals[p], p.Type())
			for i, t := range ts {
				if lv[i] && t.op == OVar && containsVar(o, t) {
					return true
				}
			}
		}
	}
	for c, lv := range hs.cells {
		ts := ex.flatten(hst.cells[c], ex.cellTyp[c])
		for i, t := range ts {
			if lv[i] && t.op == OVar && containsVar(o, t) {
				return true
			}
		}
	}
	return false
}

func collectObjs(h, base *Term, objs map[*Term]bool, seen map[*Term]bool) bool {
	for {
		if h == base || seen[h] {
			return true
		}
		seen[h] = true
		if h.op == OStore {
			objs[h.args[1]] = true
			h = h.args[0]
			continue
		}
		if h.op == OIte {
			if !collectObjs(h.args[1], base, objs, seen) {
				return false
			}
			h = h.args[2]
			continue
		}
		// base may itself be a store chain sharing a tail
		b := base
		for b.op == OStore {
			b = b.args[0]
			if h == b {
				return true
			}
		}
		return false
	}
}

// frame: with a whole-key havoc, objects that existed at loop entry and are
// not reachable through the loop's slices keep their contents.
func (ex *Exec) frameObjs(hs *havocSet, entry *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(v Val) {}
	var rec func(v Val)
	rec = func(v Val) {
		switch x := v.(type) {
		case *SliceVal:
			if x.snap == nil && !seen[x.obj] {
				seen[x.obj] = true
				out = append(out, x.obj)
			}
		case *StructVal:
			for _, f := range x.f {
				rec(f)
			}
		case *ArrVal:
			for _, f := range x.e {
				rec(f)
			}
		case *TupleVal:
			for _, f := range x.v {
				rec(f)
			}
		}
	}
	_ = add
	var phis []*ssa.Phi
	for p := range hs.phis {
		phis = append(phis, p)
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].Name() < phis[j].Name() })
	for _, p := range phis {
		rec(entry.vals[p])
	}
	var cs []int
	for c := range hs.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		rec(entry.cells[c])
	}
	for _, o := range hs.inv {
		for _, l := range iteLeaves(o) {
			if !seen[l] && !surelyGe(l, entry.w) {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

// iteLeaves: the values a conditional may take.
func iteLeaves(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

func surelyGe(a, b *Term) bool {
	d := Sub(a, b)
	return d.isK() && d.k.Sign() >= 0
}

// ownObj: the object is, whatever the path, allocated since w or one of objs.
// Object zero is what nil slices refer to and has no elements.
func ownObj(o, w *Term, objs []*Term) bool {
	ok := map[*Term]bool{}
	for _, x := range objs {
		ok[x] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if ok[t] || seen[t] || t.isK() && t.k.Sign() == 0 || surelyGe(t, w) {
			return true
		}
		seen[t] = true
		return t.op == OIte && rec(t.args[1]) && rec(t.args[2])
	}
	return rec(o)
}

func (ex *Exec) frameFact(hs *havocSet, entry *State, newH, oldH *Term) *Term {
	o := NewBound("o", IntS)
	conds := []*Term{Le(IntK(1), o), Lt(o, entry.w)}
	for _, x := range ex.frameObjs(hs, entry) {
		conds = append(conds, Ne(o, x))
	}
	return Forall(o, Implies(And(conds...), Eq(Select(newH, o), Select(oldH, o))))
}

func (ex *Exec) assumeFrames(hs *havocSet, entry, hst *State) {
	for k, hh := range hs.heap {
		if hh.all {
			old, ok := entry.heap[k]
			if !ok {
				old = ex.heap0(k, hh.sort)
			}
			ex.assume(hst, ex.frameFact(hs, entry, hst.heap[k], old))
		}
	}
}

// frameObl proves that every object written in the iteration is either one of
// the loop's own slices at entry or allocated since loop entry.
func (ex *Exec) frameObl(hs *havocSet, hst, bst *State, W0 *Term, loopName string, pos token.Pos) {
	var keys []string
	for k, hh := range hs.heap {
		if hh.all {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		objs := map[*Term]bool{}
		base := hst.heap[k]
		h := bst.heap[k]
		if base == nil || h == nil || h == base {
			continue
		}
		if !collectObjs(h, base, objs, map[*Term]bool{}) {
			// inner loop havocked the key: rely on its own frame fact
			ex.oblige(bst, "loop-frame", loopName+" frame "+k, pos, ex.frameGoalWhole(hs, hst, bst, k, W0))
			continue
		}
		var os []*Term
		for o := range objs {
			os = append(os, o)
		}
		sortTerms(os)
		for _, o := range os {
			if ownObj(o, W0, hs.eobjs) {
				ex.oblige(bst, "loop-frame", loopName+" frame "+k, pos, True)
				continue
			}
			g := Ge(o, W0)
			for _, x := range hs.eobjs {
				g = Or(g, Eq(o, x))
			}
			ex.oblige(bst, "loop-frame", loopName+" frame "+k, pos, g)
		}
	}
}

func (ex *Exec) frameGoalWhole(hs *havocSet, hst, bst *State, k string, W0 *Term) *Term {
	o := NewBound("o", IntS)
	conds := []*Term{Le(IntK(1), o), Lt(o, W0)}
	for _, x := range hs.eobjs {
		conds = append(conds, Ne(o, x))
	}
	return Forall(o, Implies(And(conds...), Eq(Select(bst.heap[k], o), Select(hst.heap[k], o))))
}

// ---------------------------------------------------------------- candidates

type cand struct {
	name string
	f    func(st *State) *Term
}

func (ex *Exec) candidates(fr *Frame, L *Loop, entry *State, hs *havocSet, phis []*ssa.Phi) []cand {
	var out []cand
	add := func(name string, f func(st *State) *Term) { out = append(out, cand{name, f}) }
	ix := ex.idxSort()
	le := func(a, b *Term) *Term {
		if a.sort.kind == SBV {
			return BVCmp("bvsle", a, b)
		}
		return Le(a, b)
	}
	type lv struct {
		name string
		get  func(st *State) *Term
		init *Term
	}
	var ints []lv
	type sv struct {
		name string
		get  func(st *State) *SliceVal
		init *SliceVal
	}
	var slices []sv
	var visit func(name string, t types.Type, init Val, get func(st *State) Val, depth int)
	visit = func(name string, t types.Type, init Val, get func(st *State) Val, depth int) {
		if depth > 3 {
			return
		}
		switch x := init.(type) {
		case *Term:
			if r, ok := ex.rep(t); ok && r.kind != SBool && r.signed && (x.sort.kind == SInt || x.sort == ix) {
				ints = append(ints, lv{name, func(st *State) *Term { v, _ := get(st).(*Term); return v }, x})
			}
		case *SliceVal:
			slices = append(slices, sv{name, func(st *State) *SliceVal { v, _ := get(st).(*SliceVal); return v }, x})
		case *StructVal:
			u := t.Underlying().(*types.Struct)
			for i := range x.f {
				i := i
				visit(name+"."+u.Field(i).Name(), u.Field(i).Type(), x.f[i], func(st *State) Val {
					s, ok := get(st).(*StructVal)
					if !ok {
						return nil
					}
					return s.f[i]
				}, depth+1)
			}
		}
	}
	for _, p := range phis {
		p := p
		if hs.phis[p] != nil {
			visit(nameOr(p.Comment, p.Name()), p.Type(), entry.vals[p], func(st *State) Val { return st.vals[p] }, 0)
		}
	}
	var cs []int
	for c := range hs.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		c := c
		visit(nameOr(ex.cellName[c], fmt.Sprint("cell", c)), ex.cellTyp[c], entry.cells[c], func(st *State) Val { return st.cells[c] }, 0)
	}
	// loop-invariant bounds compared against inside the loop
	var bounds []struct {
		name string
		t    *Term
	}
	seenB := map[*Term]bool{}
	for b := range L.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				r, ok := ex.rep(v.Type())
				if !ok || r.kind == SBool || !r.signed {
					continue
				}
				if iv, ok := v.(ssa.Instruction); ok && L.blocks[iv.Block()] {
					// len(x) of an invariant value computed in the loop
					if call, ok := v.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							if a, ok := ex.tryVal(entry, call.Call.Args[0]); ok {
								if s, ok := a.(*SliceVal); ok && !seenB[s.len] {
									seenB[s.len] = true
									bounds = append(bounds, struct {
										name string
										t    *Term
									}{"len", s.len})
								}
								if s, ok := a.(*StrVal); ok && !seenB[s.len] {
									seenB[s.len] = true
									bounds = append(bounds, struct {
										name string
										t    *Term
									}{"len", s.len})
								}
							}
						}
					}
					continue
				}
				if x, ok := ex.tryVal(entry, v); ok {
					if t, ok := x.(*Term); ok && !seenB[t] && (t.sort.kind == SInt || t.sort == ix) {
						seenB[t] = true
						bounds = append(bounds, struct {
							name string
							t    *Term
						}{v.Name(), t})
					}
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].t.id < bounds[j].t.id })
	nz := func(f func(st *State) *Term) func(st *State) *Term {
		return func(st *State) *Term {
			t := f(st)
			if t == nil {
				return False
			}
			return t
		}
	}
	for _, v := range ints {
		v := v
		add("auto:"+v.name+">=init", nz(func(st *State) *Term { return le(v.init, v.get(st)) }))
		add("auto:"+v.name+"<=init", nz(func(st *State) *Term { return le(v.get(st), v.init) }))
		for _, b := range bounds {
			b := b
			if b.t.sort != v.init.sort {
				continue
			}
			mx := Ite(le(b.t, v.init), v.init, b.t)
			add(fmt.Sprintf("auto:%s<=max(%s,init)", v.name, b.name), nz(func(st *State) *Term { return le(v.get(st), mx) }))
			if v.init.sort.kind == SInt {
				mx1 := Ite(Le(b.t, AddK(v.init, 1)), AddK(v.init, 1), b.t)
				add(fmt.Sprintf("auto:%s+1<=max(%s,init+1)", v.name, b.name), nz(func(st *State) *Term { return Le(AddK(v.get(st), 1), mx1) }))
			}
		}
	}
	if len(ints) <= 4 {
		for i := range ints {
			for j := i + 1; j < len(ints); j++ {
				a, b := ints[i], ints[j]
				if a.init.sort != b.init.sort || a.init.sort.kind != SInt {
					continue
				}
				d := Sub(a.init, b.init)
				add("auto:"+a.name+"-"+b.name, nz(func(st *State) *Term { return Eq(Sub(a.get(st), b.get(st)), d) }))
			}
		}
	}
	W0 := entry.w
	for _, s := range slices {
		s := s
		sf := func(f func(v *SliceVal) *Term) func(st *State) *Term {
			return func(st *State) *Term {
				v := s.get(st)
				if v == nil {
					return False
				}
				return f(v)
			}
		}
		add("auto:"+s.name+" same object", sf(func(v *SliceVal) *Term { return Eq(v.obj, s.init.obj) }))
		add("auto:"+s.name+" same or fresh object", sf(func(v *SliceVal) *Term { return Or(Eq(v.obj, s.init.obj), Ge(v.obj, W0)) }))
		add("auto:"+s.name+" same end", sf(func(v *SliceVal) *Term { return Eq(iadd(v.off, v.len), iadd(s.init.off, s.init.len)) }))
		add("auto:"+s.name+" same capend", sf(func(v *SliceVal) *Term { return Eq(iadd(v.off, v.cap), iadd(s.init.off, s.init.cap)) }))
		add("auto:"+s.name+" off>=init", sf(func(v *SliceVal) *Term { return ileq(s.init.off, v.off) }))
		add("auto:"+s.name+" off=init", sf(func(v *SliceVal) *Term { return Eq(s.init.off, v.off) }))
		add("auto:"+s.name+" len<=init", sf(func(v *SliceVal) *Term { return ileq(v.len, s.init.len) }))
		add("auto:"+s.name+" len>=init", sf(func(v *SliceVal) *Term { return ileq(s.init.len, v.len) }))
		add("auto:"+s.name+" cap>=init", sf(func(v *SliceVal) *Term { return ileq(s.init.cap, v.cap) }))
	}
	// what the contract's frame says holds so far
	if ex.root != nil && ex.root.modular && ex.entrySt != nil && !ex.root.lemma {
		_, objs := ex.frameAllowed(ex.entrySt, ex.root, ex.root.fn, ex.rootArgs)
		var keys []string
		for k, hh := range hs.heap {
			if hh.all {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			add("auto:frame "+k, nz(func(st *State) *Term {
				h := st.heap[k]
				if h == nil {
					return True
				}
				h0, ok := ex.entrySt.heap[k]
				if !ok {
					h0 = ex.heap0(k, h.sort)
				}
				if h == h0 {
					return True
				}
				o := NewBound("o", IntS)
				conds := []*Term{Le(IntK(1), o), Lt(o, ex.entrySt.w)}
				for _, x := range objs {
					conds = append(conds, Ne(o, x))
				}
				return Forall(o, Implies(And(conds...), Eq(Select(h, o), Select(h0, o))))
			}))
		}
	}
	return out
}

func (ex *Exec) houdiniRun(fr *Frame, L *Loop, entry *State, hs *havocSet, phis []*ssa.Phi, invs []*Clause, cands []cand) []cand {
	if len(cands) == 0 || ex.pure > 0 {
		return nil
	}
	known := ex.loopCand[L.header]
	if ex.dry > 0 && ex.houdini == 0 {
		// havoc discovery does not need auxiliary facts
		return nil
	}
	// entry filter
	var cur []cand
	for _, c := range cands {
		if known != nil && !known[c.name] && ex.dry > 0 {
			continue
		}
		g := c.f(entry)
		if g == True || g != False && ex.quick(entry.pc, g) {
			cur = append(cur, c)
		}
	}
	for len(cur) > 0 {
		m := ex.mark()
		ex.dry++
		ex.houdini++
		saveRets, saveDef := fr.rets, fr.defers
		hst := ex.havoc(fr, L, entry, hs, phis)
		ex.assumeFrames(hs, entry, hst)
		for _, c := range cur {
			ex.assume(hst, c.f(hst))
		}
		for _, c := range invs {
			ex.assume(hst, ex.evalInv(fr, L, hst, entry, c))
		}
		back, _ := ex.execBody(fr, L, L.header, hst)
		fr.rets, fr.defers = saveRets, saveDef
		var next []cand
		if len(back) == 0 {
			next = cur
		} else {
			bst := ex.enter(L.header, back)
			var goals []*Term
			for _, c := range cur {
				if bst == nil {
					goals = append(goals, True)
				} else {
					goals = append(goals, c.f(bst))
				}
			}
			if bst == nil {
				next = cur
			} else {
				oks := ex.quickMany(bst.pc, goals)
				for i, c := range cur {
					if oks[i] {
						next = append(next, c)
					}
				}
			}
		}
		ex.dry--
		ex.houdini--
		ex.reset(m)
		if len(next) == len(cur) {
			break
		}
		cur = next
	}
	k := map[string]bool{}
	for _, c := range cur {
		k[c.name] = true
	}
	ex.loopCand[L.header] = k
	return cur
}

// autoMeasure looks for a decreasing, bounded-below measure.
func (ex *Exec) autoMeasure(fr *Frame, L *Loop, hst, bst, entry *State, phis []*ssa.Phi, loopName string, pos token.Pos) {
	type ms struct {
		a, b *Term // at header, at back edge
	}
	var cs []ms
	var walk func(a, b Val, t types.Type)
	var bnds []*Term
	for b := range L.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if x, ok := ex.tryVal(hst, v); ok {
					if t, ok := x.(*Term); ok && t.sort.kind != SBool {
						bnds = append(bnds, t)
					}
				} else if call, ok := v.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if a, ok := ex.tryVal(hst, call.Call.Args[0]); ok {
							switch s := a.(type) {
							case *SliceVal:
								bnds = append(bnds, s.len)
							case *StrVal:
								bnds = append(bnds, s.len)
							}
						}
					}
				}
			}
		}
	}
	bnds = dedupe(bnds)
	sortTerms(bnds)
	walk = func(a, b Val, t types.Type) {
		switch x := a.(type) {
		case *Term:
			y, ok := b.(*Term)
			if !ok || x == y || x.sort.kind == SBool || x.sort.kind == SArray {
				return
			}
			if x.sort != ex.idxSort() {
				return
			}
			for _, n := range bnds {
				if n.sort == x.sort && n != x {
					cs = append(cs, ms{isub(n, x), isub(n, y)})
				}
			}
			cs = append(cs, ms{x, y})
		case *SliceVal:
			y, ok := b.(*SliceVal)
			if ok && x.len != y.len {
				cs = append(cs, ms{x.len, y.len})
			}
		case *StrVal:
			y, ok := b.(*StrVal)
			if ok && x.len != y.len {
				cs = append(cs, ms{x.len, y.len})
			}
		case *StructVal:
			y, ok := b.(*StructVal)
			if !ok {
				return
			}
			u := t.Underlying().(*types.Struct)
			for i := range x.f {
				walk(x.f[i], y.f[i], u.Field(i).Type())
			}
		}
	}
	for _, p := range phis {
		walk(hst.vals[p], bst.vals[p], p.Type())
	}
	for c, v := range hst.cells {
		if nv, ok := bst.cells[c]; ok && nv != v {
			walk(v, nv, ex.cellTyp[c])
		}
	}
	var goals []*Term
	for _, c := range cs {
		goals = append(goals, And(ileq(KOf(c.a.sort, 0), c.a), iltq(c.b, c.a)))
	}
	// slack: allow bound+1 (range loops start at -1)
	for _, c := range cs {
		if c.a.sort.kind == SInt {
			goals = append(goals, And(Le(IntK(-2), c.a), Lt(c.b, c.a)))
		}
	}
	for i, g := range goals {
		if g == True || i == len(goals)-1 && len(goals) == 1 {
			ex.oblige(bst, "decreases", loopName+" terminates", pos, g)
			return
		}
	}
	oks := ex.quickMany(bst.pc, goals)
	for i, ok := range oks {
		if ok {
			ex.oblige(bst, "decreases", loopName+" terminates", pos, goals[i])
			return
		}
	}
	g := False
	for _, x := range goals {
		g = Or(g, x)
	}
	ex.oblige(bst, "decreases", loopName+" terminates (no measure found)", pos, g)
}

// ---------------------------------------------------------------- invariants binding

func (ex *Exec) loopClauses(fr *Frame, L *Loop) ([]*Clause, *Clause) {
	return ex.prog.loopClauses(ex, fr, L)
}

func (ex *Exec) evalInv(fr *Frame, L *Loop, st, entry *State, c *Clause) *Term {
	args := ex.bindArgs(fr, L, st, entry, c)
	v := ex.evalPure(st, c.fn, args)
	t, ok := v.(*Term)
	if !ok || t.sort.kind != SBool {
		unsup("invariant %s is not boolean", c.name)
	}
	return t
}

func (ex *Exec) evalMeasure(fr *Frame, L *Loop, st, entry *State, c *Clause) *Term {
	args := ex.bindArgs(fr, L, st, entry, c)
	return ex.evalPure(st, c.fn, args).(*Term)
}

func (ex *Exec) bindArgs(fr *Frame, L *Loop, st, entry *State, c *Clause) []Val {
	var args []Val
	for _, p := range c.fn.Params {
		v, ok := ex.resolve(fr, L, st, entry, p.Name(), p.Type())
		if !ok {
			unsup("cannot bind %q of %s at loop %d of %s", p.Name(), c.name, L.ord, fr.fn)
		}
		args = append(args, v)
	}
	return args
}

func (ex *Exec) resolve(fr *Frame, L *Loop, st, entry *State, name string, t types.Type) (Val, bool) {
	if rn, ok := ex.renames[name]; ok {
		name = rn
	}
	if strings.HasPrefix(name, "old_") {
		n := strings.TrimPrefix(name, "old_")
		for f := fr; f != nil; f = f.caller {
			for i, p := range f.fn.Params {
				if p.Name() == n && types.Identical(p.Type(), t) {
					return tagSnap(f.args[i], f.entry), true
				}
			}
		}
		return nil, false
	}
	// the parameter as passed in, over memory as it is now
	if strings.HasPrefix(name, "now_") {
		n := strings.TrimPrefix(name, "now_")
		for f := fr; f != nil; f = f.caller {
			for i, p := range f.fn.Params {
				if p.Name() == n && types.Identical(p.Type(), t) {
					return f.args[i], true
				}
			}
		}
		return nil, false
	}
	if strings.HasPrefix(name, "pre_") {
		v, ok := ex.resolve(fr, L, entry, entry, strings.TrimPrefix(name, "pre_"), t)
		if !ok {
			return nil, false
		}
		return tagSnap(v, entry), true
	}
	match := func(x types.Type) bool { return types.Identical(x, t) }
	// header phis, then enclosing loops' phis
	for l := L; l != nil; l = l.parent {
		for _, p := range phisOf(l.header) {
			if p.Comment == name && match(p.Type()) {
				if v, ok := st.vals[p]; ok {
					return v, true
				}
			}
		}
	}
	// named allocs: the latest one declared before the header, else any
	var named *PtrVal
	for _, blocks := range [][]*ssa.BasicBlock{ex.domOrder(fr.fn, L.header), fr.fn.Blocks} {
		for _, b := range blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok && a.Comment == name && match(deref(a.Type())) {
					if v, ok := st.vals[a]; ok {
						named = v.(*PtrVal)
					}
				}
			}
		}
		if named != nil {
			return ex.pureLoad(st, named, t), true
		}
	}
	// latest debug binding that dominates the header
	var best Val
	for _, b := range ex.domOrder(fr.fn, L.header) {
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok && p.Comment == name && match(p.Type()) {
				if v, ok := st.vals[p]; ok {
					best = v
				}
			}
			if b == L.header {
				if _, ok := ins.(*ssa.Phi); !ok {
					if _, ok := ins.(*ssa.DebugRef); !ok {
						break
					}
				}
			}
			d, ok := ins.(*ssa.DebugRef)
			if !ok || d.Object() == nil || d.Object().Name() != name {
				continue
			}
			if d.IsAddr {
				if match(deref(d.X.Type())) {
					if v, ok := ex.tryVal(st, d.X); ok {
						if pv, ok := v.(*PtrVal); ok {
							best = ex.pureLoad(st, pv, deref(d.X.Type()))
						}
					}
				}
				continue
			}
			if match(d.X.Type()) {
				if v, ok := ex.tryVal(st, d.X); ok {
					best = v
				}
			}
		}
	}
	if best != nil {
		return best, true
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && match(p.Type()) {
			return fr.args[i], true
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			if v, ok := st.vals[fv]; ok {
				if match(fv.Type()) {
					return v, true
				}
				if pv, ok := v.(*PtrVal); ok && match(deref(fv.Type())) {
					return ex.pureLoad(st, pv, deref(fv.Type())), true
				}
			}
		}
	}
	// a variable of an enclosing (inlining) frame
	for f := fr.caller; f != nil; f = f.caller {
		for i, p := range f.fn.Params {
			if p.Name() == name && match(p.Type()) {
				return f.args[i], true
			}
		}
	}
	if ex.guess != nil {
		return ex.guess(fr, L, st, name, t)
	}
	return nil, false
}

func (ex *Exec) domOrder(fn *ssa.Function, h *ssa.BasicBlock) []*ssa.BasicBlock {
	var chain []*ssa.BasicBlock
	for b := h; b != nil; b = b.Idom() {
		chain = append(chain, b)
	}
	for i, j := 0, len(chain)-1; i < j; i, j = i+1, j-1 {
		chain[i], chain[j] = chain[j], chain[i]
	}
	return chain
}

func (ex *Exec) pureLoad(st *State, p *PtrVal, t types.Type) Val {
	ex.pure++
	defer func() { ex.pure-- }()
	return ex.load(st, p, t, token.NoPos)
}

// evalPure evaluates specification code in a state without side effects.
func (ex *Exec) evalPure(st *State, fn *ssa.Function, args []Val) Val {
	s := st.clone()
	s.pc = True
	ex.pure++
	defer func() { ex.pure-- }()
	prev := ex.curFrame
	defer func() { ex.curFrame = prev }()
	s2, v := ex.runFunc(s, fn, args, nil, nil)
	if s2 == nil {
		unsup("specification %s does not return", fn)
	}
	return v
}
