package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- specification builtins

func (ex *Exec) rtCall(fr *Frame, st *State, fn *ssa.Function, base string, args []Val, pos token.Pos) (*State, Val, bool) {
	switch base {
	case "vcAll", "vcExists":
		return st, ex.quantify(fr, st, base == "vcAll", args[0].(*Term), args[1].(*Term), args[2]), true
	case "vcImplies":
		return st, Implies(args[0].(*Term), args[1].(*Term)), true
	case "vcIff":
		return st, Eq(args[0].(*Term), args[1].(*Term)), true
	case "vcDiv":
		return st, DivE(args[0].(*Term), args[1].(*Term)), true
	case "vcMod":
		return st, ModE(args[0].(*Term), args[1].(*Term)), true
	case "vcIte":
		return st, ex.iteVal(args[0].(*Term), args[1], args[2]), true
	case "vcAssume":
		c := args[0].(*Term)
		ex.assume(st, c)
		if !c.hasQ {
			st.pc = And(st.pc, c)
		}
		return st, nil, true
	case "vcAssert":
		name := "assert"
		if s, ok := args[0].(*StrVal); ok && s.c != nil {
			name = *s.c
		}
		ex.oblige(st, "assert", name, pos, args[1].(*Term))
		return st, nil, true
	case "vcSameArr":
		a, b := args[0].(*SliceVal), args[1].(*SliceVal)
		return st, Eq(a.obj, b.obj), true
	case "vcOffset":
		// distance between the starts of two slices of the same array
		a, b := args[0].(*SliceVal), args[1].(*SliceVal)
		return st, isub(a.off, b.off), true
	case "vcFreshArr":
		// backing array did not exist at entry of the function under contract
		a := args[0].(*SliceVal)
		if ex.entrySt == nil {
			unsup("vcFreshArr outside a postcondition")
		}
		return st, Or(Eq(a.obj, IntK(0)), Ge(a.obj, ex.entrySt.w)), true
	case "vcNilErr":
		return st, ex.eqVal(st, args[0], ex.zero(types.Universe.Lookup("error").Type()), types.Universe.Lookup("error").Type()), true
	}
	return nil, nil, false
}

func (ex *Exec) quantify(fr *Frame, st *State, all bool, lo, hi *Term, f Val) *Term {
	fv := f.(*FuncVal)
	if len(fv.alts) != 1 || fv.alts[0].fn == nil {
		unsup("quantifier body is not a function literal")
	}
	fn := fv.alts[0].fn
	bind := fv.alts[0].bind
	run := func(i *Term) *Term {
		s := st.clone()
		s.pc = True
		ex.pure++
		defer func() { ex.pure-- }()
		s2, v := ex.runFunc(s, fn, []Val{i}, bind, fr)
		if s2 == nil {
			unsup("quantifier body does not return")
		}
		t, ok := v.(*Term)
		if !ok {
			unsup("quantifier body value %T", v)
		}
		return t
	}
	if lo.isK() && hi.isK() && lo.sort.kind == SInt {
		n := new(big.Int).Sub(hi.k, lo.k)
		if n.Sign() <= 0 {
			return BoolK(all)
		}
		if n.IsInt64() && n.Int64() <= 64 {
			var ts []*Term
			for i := int64(0); i < n.Int64(); i++ {
				ts = append(ts, run(AddK(lo, i)))
			}
			if all {
				return And(ts...)
			}
			return Or(ts...)
		}
	}
	if lo.isK() && hi.isK() && lo.sort.kind == SBV {
		n := new(big.Int).Sub(toSigned(hi.k, 64), toSigned(lo.k, 64))
		if n.Sign() <= 0 {
			return BoolK(all)
		}
		if n.IsInt64() && n.Int64() <= 64 {
			var ts []*Term
			for i := int64(0); i < n.Int64(); i++ {
				ts = append(ts, run(iadd(lo, ex.ik(i))))
			}
			if all {
				return And(ts...)
			}
			return Or(ts...)
		}
	}
	b := NewBound("q", lo.sort)
	ex.bound++
	body := run(b)
	ex.bound--
	in := And(ileq(lo, b), iltq(b, hi))
	if all {
		return Forall(b, Implies(in, body))
	}
	return Not(Forall(b, Not(And(in, body))))
}

// ---------------------------------------------------------------- recursive spec functions

// specArgs is what the result of a pure function depends on: its arguments,
// with the elements of slices.
func (ex *Exec) specArgs(st *State, fn *ssa.Function, args []Val) []*Term {
	var ts []*Term
	for i, a := range args {
		t := fn.Params[i].Type()
		switch v := a.(type) {
		case *SliceVal:
			rd := st
			if v.snap != nil {
				rd = v.snap
			}
			for _, l := range ex.leaves(v.elem) {
				ts = append(ts, Select(ex.heapGet(rd, v.elem, l), v.obj))
			}
			ts = append(ts, v.off, v.len)
		case *StructVal:
			if hasRef(t) {
				unsup("spec argument with references")
			}
			ts = append(ts, ex.flatten(a, t)...)
		default:
			ts = append(ts, ex.flatten(a, t)...)
		}
	}
	return ts
}

func (ex *Exec) specCall(st *State, fn *ssa.Function, args []Val) Val {
	ts := ex.specArgs(st, fn, args)
	res := fn.Signature.Results()
	name := "spec:" + fn.Name()
	v := ex.ufResult(name, res, ts)
	if ex.prog.opaque[fn] && !ex.revealed(fn.Name()) {
		return v
	}
	// definitional unfolding
	key := App(name+"#key", IntS, ts...)
	if ex.specApps[key] || len(key.fb) > 0 || ex.specFuel >= 3 {
		return v
	}
	ex.specApps[key] = true
	ex.specFuel++
	defer func() { ex.specFuel-- }()
	s := st.clone()
	s.pc = True
	ex.pure++
	defer func() { ex.pure-- }()
	s2, bv := ex.runFunc(s, fn, args, nil, nil)
	if s2 == nil {
		unsup("spec %s does not return", fn)
	}
	for i, t := range ex.flattenRes(bv, res) {
		ex.specAx = append(ex.specAx, Eq(ex.flattenRes(v, res)[i], t))
	}
	return v
}

func (ex *Exec) flattenRes(v Val, res *types.Tuple) []*Term {
	if res.Len() == 1 {
		return ex.flatten(v, res.At(0).Type())
	}
	var out []*Term
	for i := 0; i < res.Len(); i++ {
		out = append(out, ex.flatten(v.(*TupleVal).v[i], res.At(i).Type())...)
	}
	return out
}

// ---------------------------------------------------------------- contracts

// bindContract gives the arguments of a requires/ensures/panics clause.
func (ex *Exec) bindContract(c *Clause, fn *ssa.Function, args []Val, entry *State, ret Val) []Val {
	var out []Val
	for _, p := range c.fn.Params {
		v, ok := ex.bindOne(p.Name(), p.Type(), fn, args, entry, ret)
		if !ok {
			unsup("cannot bind %q of %s", p.Name(), c.name)
		}
		out = append(out, v)
	}
	return out
}

func (ex *Exec) bindOne(name string, t types.Type, fn *ssa.Function, args []Val, entry *State, ret Val) (Val, bool) {
	if strings.HasPrefix(name, "old_") {
		v, ok := ex.bindOne(strings.TrimPrefix(name, "old_"), t, fn, args, entry, nil)
		if !ok {
			return nil, false
		}
		if entry != nil {
			v = tagSnap(v, entry)
		}
		return v, true
	}
	if name == "ret" && ret != nil {
		if tv, ok := ret.(*TupleVal); ok {
			if len(tv.v) > 0 {
				return tv.v[0], true
			}
		}
		return ret, true
	}
	if strings.HasPrefix(name, "ret") && len(name) == 4 && ret != nil {
		i := int(name[3] - '0')
		if tv, ok := ret.(*TupleVal); ok && i >= 0 && i < len(tv.v) {
			return tv.v[i], true
		}
		if i == 0 {
			return ret, true
		}
	}
	// positional name argN (receiver is arg0 for methods)
	if strings.HasPrefix(name, "arg") && len(name) == 4 {
		i := int(name[3] - '0')
		if i >= 0 && i < len(args) {
			return args[i], true
		}
	}
	for i, p := range fn.Params {
		if p.Name() == name && types.Identical(p.Type(), t) {
			return args[i], true
		}
	}
	// renamed parameter: unique parameter of that type
	found := -1
	for i, p := range fn.Params {
		if types.Identical(p.Type(), t) {
			if found >= 0 {
				return nil, false
			}
			found = i
		}
	}
	if found >= 0 {
		return args[found], true
	}
	return nil, false
}

func (ex *Exec) evalClause(st *State, c *Clause, fn *ssa.Function, args []Val, entry *State, ret Val) *Term {
	v := ex.evalPure(st, c.fn, ex.bindContract(c, fn, args, entry, ret))
	t, ok := v.(*Term)
	if !ok || t.sort.kind != SBool {
		unsup("clause %s is not boolean", c.name)
	}
	return t
}

func (ex *Exec) rootPanics() *Term {
	return ex.evalClause(ex.entrySt, ex.root.panics, ex.root.fn, ex.rootArgs, ex.entrySt, nil)
}

func (ex *Exec) applyContract(fr *Frame, st *State, ct *Contract, fn *ssa.Function, args []Val, pos token.Pos) (*State, Val) {
	ex.modular[ct.id()] = true
	entry := st.clone()
	for _, c := range ct.requires {
		ex.oblige(st, "requires", shortFn(fn)+" "+c.name, pos, ex.evalClause(st, c, fn, args, entry, nil))
	}
	if ct.panics != nil {
		if p := ex.evalClause(st, ct.panics, fn, args, entry, nil); p != False {
			s := st.clone()
			s.pc = And(st.pc, p)
			if s.pc != False {
				ex.panicAt(fr, s, "callee "+shortFn(fn)+" panics", pos)
			}
			st.pc = And(st.pc, Not(p))
			if st.pc == False {
				return nil, nil
			}
		}
	}
	// the callee may allocate
	w := Fresh("W", IntS)
	ex.assumeRaw(Le(st.w, w))
	if st.w.lo != nil {
		withBounds(w, st.w.lo, nil)
	}
	w0 := st.w
	st.w = w
	for _, m := range ct.modifies {
		if m == "none" || m == "" {
			continue
		}
		ex.havocTarget(st, w0, m, fn, args)
	}
	var ret Val
	res := fn.Signature.Results()
	switch {
	case ct.det:
		ex.note("%s is taken to be a function of its arguments", shortFn(fn))
		ret = ex.ufResult("det:"+fn.String(), res, ex.specArgs(entry, fn, args))
	case res.Len() == 0:
	case res.Len() == 1:
		ret = ex.freshVal(st, "ret", res.At(0).Type())
	default:
		ret = ex.freshVal(st, "ret", res)
	}
	saved := ex.entrySt
	ex.entrySt = entry
	for _, c := range ct.ensures {
		ex.assume(st, ex.evalClause(st, c, fn, args, entry, ret))
	}
	ex.entrySt = saved
	return st, ret
}

// havocTarget: "p" (pointee of p), "p.F" (a field), "p[]" (contents of a
// slice), "p.F[]".
func (ex *Exec) havocTarget(st *State, w0 *Term, m string, fn *ssa.Function, args []Val) {
	elems := strings.HasSuffix(m, "[]")
	m = strings.TrimSuffix(m, "[]")
	parts := strings.Split(m, ".")
	var v Val
	var t types.Type
	for i, p := range fn.Params {
		if p.Name() == parts[0] {
			v, t = args[i], p.Type()
		}
	}
	if v == nil {
		unsup("modifies target %s of %s", m, fn)
	}
	p, isPtr := v.(*PtrVal)
	if isPtr && len(parts) == 1 && !elems {
		for _, a := range p.alts {
			if a.loc != nil {
				ex.storeLoc(st, a.g, a.loc, ex.freshVal(st, "mod", deref(t)))
			}
		}
		return
	}
	if isPtr {
		t = deref(t)
		var nv Val
		for _, a := range p.alts {
			if a.loc == nil {
				continue
			}
			l := a.loc
			ft := t
			for _, f := range parts[1:] {
				stt, ok := ft.Underlying().(*types.Struct)
				if !ok {
					unsup("modifies %s", m)
				}
				found := false
				for k := 0; k < stt.NumFields(); k++ {
					if stt.Field(k).Name() == f {
						l = subLoc(l, PathElem{field: k})
						ft = stt.Field(k).Type()
						found = true
						break
					}
				}
				if !found {
					unsup("modifies field %s", m)
				}
			}
			if elems {
				nv = ex.loadLoc(st, l, ft)
			} else {
				ex.storeLoc(st, a.g, l, ex.freshVal(st, "mod", ft))
			}
		}
		if !elems {
			return
		}
		v = nv
	}
	if sv, ok := v.(*StructVal); ok && elems {
		v, t = fieldPath(sv, t, parts[1:])
	}
	s, ok := v.(*SliceVal)
	if !ok {
		unsup("modifies %s", m)
	}
	for _, l := range ex.leaves(s.elem) {
		h := ex.heapGet(st, s.elem, l)
		ex.heapSet(st, s.elem, l, Store(h, s.obj, Fresh("H:"+ex.heapKey(s.elem, l)+".obj", h.sort.elem)))
	}
}

// fieldPath is the value of a field of a field ... of a struct.
func fieldPath(sv *StructVal, t types.Type, path []string) (Val, types.Type) {
	var v Val = sv
	for _, f := range path {
		sv, ok := v.(*StructVal)
		stt, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return nil, nil
		}
		v = nil
		for k := 0; k < stt.NumFields(); k++ {
			if stt.Field(k).Name() == f {
				v, t = sv.f[k], stt.Field(k).Type()
				break
			}
		}
	}
	return v, t
}

// frameObligations: a modular contract may change only what it lists.
func (ex *Exec) frameObligations(st, entry *State, ct *Contract, fn *ssa.Function, args []Val, pos token.Pos) {
	allowed, objs := ex.frameAllowed(entry, ct, fn, args)
	ex.frameCheck(st, entry, allowed, objs, pos)
}

// frameAllowed: the cells (with field paths; nil path = everything) and the
// array objects a contract lists as modified.
func (ex *Exec) frameAllowed(entry *State, ct *Contract, fn *ssa.Function, args []Val) (map[int][][]int, []*Term) {
	allowed := map[int][][]int{}
	var objs []*Term
	for _, m := range ct.modifies {
		if m == "none" || m == "" {
			continue
		}
		elems := strings.HasSuffix(m, "[]")
		parts := strings.Split(strings.TrimSuffix(m, "[]"), ".")
		for i, p := range fn.Params {
			if p.Name() != parts[0] {
				continue
			}
			switch v := args[i].(type) {
			case *SliceVal:
				objs = append(objs, v.obj)
			case *StructVal:
				if f, _ := fieldPath(v, p.Type(), parts[1:]); f != nil && elems {
					if s, ok := f.(*SliceVal); ok {
						objs = append(objs, s.obj)
					}
				}
			case *PtrVal:
				t := deref(p.Type())
				for _, a := range v.alts {
					if a.loc == nil {
						continue
					}
					l := a.loc
					var path []int
					ft := t
					for _, f := range parts[1:] {
						stt := ft.Underlying().(*types.Struct)
						for k := 0; k < stt.NumFields(); k++ {
							if stt.Field(k).Name() == f {
								path = append(path, k)
								l = subLoc(l, PathElem{field: k})
								ft = stt.Field(k).Type()
								break
							}
						}
					}
					if elems {
						if s, ok := ex.loadLoc(entry, l, ft).(*SliceVal); ok {
							objs = append(objs, s.obj)
						}
					} else if l.kind == LCell {
						allowed[l.cell] = append(allowed[l.cell], path)
					}
				}
			}
		}
	}
	// a slice that may be nil: nobody else sees the object it would have had
	for i, o := range objs {
		if o.op == OIte && o.args[1].isK() && o.args[1].k.Sign() == 0 && o.args[2].isK() {
			objs[i] = o.args[2]
			objs = append(objs, o.args[1])
		}
	}
	return allowed, objs
}

func (ex *Exec) frameCheck(st, entry *State, allowed map[int][][]int, objs []*Term, pos token.Pos) {
	var cmp func(a, b Val, t types.Type, cell int, path []int)
	cmp = func(a, b Val, t types.Type, cell int, path []int) {
		for _, al := range allowed[cell] {
			if len(al) <= len(path) {
				same := true
				for i := range al {
					same = same && al[i] == path[i]
				}
				if same {
					return
				}
			}
		}
		if x, ok := a.(*StructVal); ok {
			if y, ok := b.(*StructVal); ok {
				u := t.Underlying().(*types.Struct)
				for i := range x.f {
					cmp(x.f[i], y.f[i], u.Field(i).Type(), cell, append(append([]int{}, path...), i))
				}
				return
			}
		}
		fa, fb := ex.flatten(a, t), ex.flatten(b, t)
		for i := range fa {
			if fa[i] != fb[i] {
				ex.oblige(st, "frame", fmt.Sprintf("only listed state changes (%s)", ex.cellName[cell]), pos, Eq(fa[i], fb[i]))
			}
		}
	}
	for c, v := range entry.cells {
		if nv, ok := st.cells[c]; ok && nv != v {
			cmp(nv, v, ex.cellTyp[c], c, nil)
		}
	}
	for k, h := range st.heap {
		h0, ok := entry.heap[k]
		if !ok {
			h0 = ex.heap0(k, h.sort)
		}
		if h == h0 {
			continue
		}
		wr := map[*Term]bool{}
		if collectObjs(h, h0, wr, map[*Term]bool{}) {
			var ol []*Term
			for o := range wr {
				ol = append(ol, o)
			}
			sortTerms(ol)
			for _, o := range ol {
				if ownObj(o, entry.w, objs) {
					ex.oblige(st, "frame", "only listed memory changes", pos, True)
					continue
				}
				g := Ge(o, entry.w)
				for _, x := range objs {
					g = Or(g, Eq(o, x))
				}
				ex.oblige(st, "frame", "only listed memory changes", pos, g)
			}
			continue
		}
		o := NewBound("o", IntS)
		conds := []*Term{Le(IntK(1), o), Lt(o, entry.w)}
		for _, x := range objs {
			conds = append(conds, Ne(o, x))
		}
		ex.oblige(st, "frame", "only listed memory changes", pos, Forall(o, Implies(And(conds...), Eq(Select(h, o), Select(h0, o)))))
	}
}

// ---------------------------------------------------------------- library models

func (ex *Exec) freshErr(st *State) *IfaceVal {
	t := Fresh("err", IntS)
	withBounds(t, bi1, nil)
	return &IfaceVal{alts: []IfaceAlt{{g: True, opaque: t}}}
}

// pure library functions whose results are left unconstrained
var freshLib = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "strconv.Quote": true, "strconv.QuoteRune": true,
	"time.Now": true, "time.Since": true, "(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).IsZero": true,
	"(time.Time).Format": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Duration).String": true,
	"os.Getenv": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "unicode.IsGraphic": true, "unicode.IsPrint": true,
	"unicode.IsControl": true,
	"log.Printf":        true, "log.Println": true, "log.Print": true, "(time.Duration).Round": true, "(time.Duration).Seconds": true,
	"os.LookupEnv": true,
}

func (ex *Exec) intrinsic(fr *Frame, st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) (*State, Val, bool) {
	base := fn.Name()
	if o := fn.Origin(); o != nil {
		base = o.Name()
	}
	if strings.HasPrefix(base, "vc") && ex.prog.isSpec(fn) {
		if s2, v, ok := ex.rtCall(fr, st, fn, base, args, pos); ok {
			return s2, v, true
		}
	}
	if fn.Pkg != nil && ex.prog.repoPkg(fn.Pkg) {
		return nil, nil, false
	}
	if freshLib[name] {
		ex.note("%s returns an arbitrary value", name)
		res := fn.Signature.Results()
		switch res.Len() {
		case 0:
			return st, nil, true
		case 1:
			return st, ex.freshVal(st, base, res.At(0).Type()), true
		}
		return st, ex.freshVal(st, base, res), true
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return st, ex.freshErr(st), true
	case "unicode/utf8.DecodeRune":
		s := args[0].(*SliceVal)
		rd := st
		if s.snap != nil {
			rd = s.snap
		}
		return st, ex.decodeRune(func(i int64) *Term {
			return ex.loadElem(rd, s.elem, s.obj, iadd(s.off, ex.ik(i))).(*Term)
		}, s.len), true
	case "unicode/utf8.DecodeRuneInString":
		s := args[0].(*StrVal)
		return st, ex.decodeRune(func(i int64) *Term { return ex.strAt(s, ex.ik(i)) }, s.len), true
	case "unicode/utf8.RuneLen":
		return st, ex.runeLen(args[0].(*Term)), true
	case "unicode/utf8.ValidRune":
		return st, ex.validRune(args[0].(*Term)), true
	case "unicode/utf8.EncodeRune":
		s := args[0].(*SliceVal)
		bs, n := ex.encodeRune(args[1].(*Term))
		ex.oblige(st, "bounds", "utf8.EncodeRune buffer large enough", pos, ileq(n, s.len))
		for i := int64(0); i < 4; i++ {
			ix := iadd(s.off, ex.ik(i))
			old := ex.loadElem(st, s.elem, s.obj, ix).(*Term)
			ex.storeElem(st, s.elem, s.obj, ix, Ite(iltq(ex.ik(i), n), bs[i], old))
		}
		return st, n, true
	case "unicode/utf8.AppendRune":
		s := args[0].(*SliceVal)
		return st, ex.appendSlice(st, s, ex.runeBytes(args[1].(*Term))), true
	case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
		var arr, off, n *Term
		switch s := args[0].(type) {
		case *SliceVal:
			rd := st
			if s.snap != nil {
				rd = s.snap
			}
			arr, off, n = Select(ex.heapGet(rd, s.elem, ex.leaves(s.elem)[0]), s.obj), s.off, s.len
		case *StrVal:
			arr, off, n = s.arr, s.off, s.len
			if s.c != nil {
				return st, ex.ik(int64(len([]rune(*s.c)))), true
			}
		}
		ex.note("utf8.RuneCount is an uninterpreted function of the bytes, between 0 and the length")
		c := App("runecount", ex.idxSort(), arr, off, n)
		if c.sort.kind == SInt {
			withBounds(c, bi0, maxLen)
		}
		ex.assumeRaw(And(ileq(ex.ik(0), c), ileq(c, n), Implies(iltq(ex.ik(0), n), iltq(ex.ik(0), c))))
		return st, c, true
	case "strconv.AppendInt":
		b := args[2].(*Term)
		if b.isK() && b.k.Int64() == 10 {
			return st, ex.appendSlice(st, args[0].(*SliceVal), ex.itoa(st, args[1].(*Term))), true
		}
	case "strconv.Itoa":
		return st, ex.itoa(st, args[0].(*Term)), true
	case "strconv.FormatInt":
		b := args[1].(*Term)
		if b.isK() && b.k.Int64() == 10 {
			return st, ex.itoa(st, args[0].(*Term)), true
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		ex.bufAppend(st, args[0].(*PtrVal), args[1], fn, pos)
		var n *Term
		switch a := args[1].(type) {
		case *SliceVal:
			n = a.len
		case *StrVal:
			n = a.len
		}
		return st, &TupleVal{v: []Val{n, ex.nilErr()}}, true
	case "(*bytes.Buffer).WriteByte":
		ex.bufAppend(st, args[0].(*PtrVal), ex.byteStr(args[1].(*Term)), fn, pos)
		return st, ex.nilErr(), true
	case "(*bytes.Buffer).WriteRune":
		rs := ex.runeBytes(args[1].(*Term))
		ex.bufAppend(st, args[0].(*PtrVal), rs, fn, pos)
		return st, &TupleVal{v: []Val{rs.len, ex.nilErr()}}, true
	case "(*bytes.Buffer).Bytes":
		s, off := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		return st, &SliceVal{elem: s.elem, obj: s.obj, off: iadd(s.off, off), len: isub(s.len, off), cap: isub(s.cap, off), snap: s.snap}, true
	case "(*bytes.Buffer).String":
		s, off := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		return st, &StrVal{arr: Select(ex.heapGet(st, s.elem, ex.leaves(s.elem)[0]), s.obj), off: iadd(s.off, off), len: isub(s.len, off)}, true
	case "(*bytes.Buffer).Len":
		s, off := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		return st, isub(s.len, off), true
	case "(*bytes.Buffer).Reset":
		s, _ := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		ex.bufSet(st, args[0].(*PtrVal), &SliceVal{elem: s.elem, obj: s.obj, off: s.off, len: ex.ik(0), cap: s.cap}, ex.ik(0), fn, pos)
		return st, nil, true
	case "(*bytes.Buffer).Truncate":
		s, off := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		n := args[1].(*Term)
		ex.oblige(st, "bounds", "bytes.Buffer truncation out of range", pos, And(ileq(ex.ik(0), n), ileq(n, isub(s.len, off))))
		ex.bufSet(st, args[0].(*PtrVal), &SliceVal{elem: s.elem, obj: s.obj, off: s.off, len: iadd(off, n), cap: s.cap}, off, fn, pos)
		return st, nil, true
	case "(*bytes.Buffer).Grow":
		return st, nil, true
	case "(*bytes.Buffer).Next":
		s, off := ex.bufFields(st, args[0].(*PtrVal), fn, pos)
		n := args[1].(*Term)
		m := isub(s.len, off)
		n = Ite(ileq(n, m), n, m)
		ex.bufSet(st, args[0].(*PtrVal), s, iadd(off, n), fn, pos)
		return st, &SliceVal{elem: s.elem, obj: s.obj, off: iadd(s.off, off), len: n, cap: isub(s.cap, off)}, true
	case "bytes.IndexByte":
		return st, ex.indexByte(st, args[0], args[1].(*Term)), true
	}
	return nil, nil, false
}

func (ex *Exec) nilErr() Val { return ex.zero(types.Universe.Lookup("error").Type()) }

// indexByte: least index of c, or -1.
func (ex *Exec) indexByte(st *State, a Val, c *Term) *Term {
	if ex.bound > 0 {
		unsup("IndexByte in a quantifier")
	}
	s := a.(*SliceVal)
	rd := st
	if s.snap != nil {
		rd = s.snap
	}
	r := Fresh("idx", ex.idxSort())
	at := func(i *Term) *Term { return ex.loadElem(rd, s.elem, s.obj, iadd(s.off, i)).(*Term) }
	neg := Eq(r, ex.ik(-1))
	b := NewBound("k", ex.idxSort())
	hi := Ite(neg, s.len, r)
	none := Forall(b, Implies(And(ileq(ex.ik(0), b), iltq(b, hi)), Ne(at(b), c)))
	if ex.pure > 0 {
		unsup("IndexByte in specification")
	}
	ex.assumeRaw(Or(neg, And(ileq(ex.ik(0), r), iltq(r, s.len), Eq(at(r), c))))
	ex.assumes = append(ex.assumes, none)
	return r
}

func (ex *Exec) byteStr(b *Term) *StrVal {
	arr := ConstArr(ex.strArrSort(), KOf(ex.byteSort(), 0))
	return &StrVal{arr: Store(arr, ex.ik(0), b), off: ex.ik(0), len: ex.ik(1)}
}

// ---- bytes.Buffer: content semantics without the internal compaction

func (ex *Exec) bufLoc(p *PtrVal) (*Loc, int, int) {
	for _, a := range p.alts {
		if a.loc != nil {
			t := a.loc.typ
			_ = t
		}
	}
	return nil, 0, 0
}

func bufFieldIdx(fn *ssa.Function) (buf, off, last int, stt *types.Struct) {
	stt = deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		switch stt.Field(i).Name() {
		case "buf":
			buf = i
		case "off":
			off = i
		case "lastRead":
			last = i
		}
	}
	return
}

func (ex *Exec) bufFields(st *State, p *PtrVal, fn *ssa.Function, pos token.Pos) (*SliceVal, *Term) {
	bi, oi, _, _ := bufFieldIdx(fn)
	ex.note("bytes.Buffer is modelled by its content; the compaction of its backing array is not")
	v := ex.load(st, p, deref(fn.Signature.Recv().Type()), pos).(*StructVal)
	return v.f[bi].(*SliceVal), v.f[oi].(*Term)
}

func (ex *Exec) bufSet(st *State, p *PtrVal, s *SliceVal, off *Term, fn *ssa.Function, pos token.Pos) {
	bi, oi, _, _ := bufFieldIdx(fn)
	v := ex.load(st, p, deref(fn.Signature.Recv().Type()), pos).(*StructVal)
	n := &StructVal{f: append([]Val{}, v.f...)}
	n.f[bi] = s
	n.f[oi] = off
	ex.store(st, p, n, pos)
}

func (ex *Exec) bufAppend(st *State, p *PtrVal, data Val, fn *ssa.Function, pos token.Pos) {
	s, off := ex.bufFields(st, p, fn, pos)
	ex.bufSet(st, p, ex.appendSlice(st, s, data), off, fn, pos)
}

// ---- UTF-8

func (ex *Exec) kb(n int64) *Term { return KOf(ex.byteSort(), n) }

func (ex *Exec) byteIn(b *Term, lo, hi int64) *Term {
	if b.sort.kind == SBV {
		return And(BVCmp("bvule", ex.kb(lo), b), BVCmp("bvule", b, ex.kb(hi)))
	}
	return And(Le(IntK(lo), b), Le(b, IntK(hi)))
}

func (ex *Exec) decodeRune(at func(i int64) *Term, n *Term) Val {
	rr := ex.runeRep()
	rs := rr.sort()
	up := func(b *Term, sub int64, shift uint) *Term {
		if rs.kind == SBV {
			x := BVOp("bvsub", ZExt(b, 32), BVK(32, big.NewInt(sub)))
			return BVOp("bvmul", x, BVK(32, big.NewInt(1<<shift)))
		}
		return Mul(AddK(b, -sub), IntK(1<<shift))
	}
	has := func(k int64) *Term { return iltq(ex.ik(k), n) }
	sum := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = iadd(r, t)
		}
		return r
	}
	b0, b1, b2, b3 := at(0), at(1), at(2), at(3)
	c1, c2, c3 := ex.byteIn(b1, 0x80, 0xBF), ex.byteIn(b2, 0x80, 0xBF), ex.byteIn(b3, 0x80, 0xBF)
	ascii := ex.byteIn(b0, 0, 0x7f)
	two := And(ex.byteIn(b0, 0xC2, 0xDF), has(1), c1)
	three := And(ex.byteIn(b0, 0xE0, 0xEF), has(2), c1, c2,
		Or(Ne(b0, ex.kb(0xE0)), ex.byteIn(b1, 0xA0, 0xBF)), Or(Ne(b0, ex.kb(0xED)), ex.byteIn(b1, 0x80, 0x9F)))
	four := And(ex.byteIn(b0, 0xF0, 0xF4), has(3), c1, c2, c3,
		Or(Ne(b0, ex.kb(0xF0)), ex.byteIn(b1, 0x90, 0xBF)), Or(Ne(b0, ex.kb(0xF4)), ex.byteIn(b1, 0x80, 0x8F)))
	r1 := up(b0, 0, 0)
	r2 := sum(up(b0, 0xC0, 6), up(b1, 0x80, 0))
	r3 := sum(up(b0, 0xE0, 12), up(b1, 0x80, 6), up(b2, 0x80, 0))
	r4 := sum(up(b0, 0xF0, 18), up(b1, 0x80, 12), up(b2, 0x80, 6), up(b3, 0x80, 0))
	bad := KOf(rs, 0xFFFD)
	some := has(0)
	r := Ite(Not(some), bad, Ite(ascii, r1, Ite(two, r2, Ite(three, r3, Ite(four, r4, bad)))))
	sz := Ite(Not(some), ex.ik(0), Ite(ascii, ex.ik(1), Ite(two, ex.ik(2), Ite(three, ex.ik(3), Ite(four, ex.ik(4), ex.ik(1))))))
	if rs.kind == SInt {
		withBounds(r, bi0, big.NewInt(0x10FFFF))
		withBounds(sz, bi0, big.NewInt(4))
	}
	return &TupleVal{v: []Val{r, sz}}
}

func (ex *Exec) rle(a *Term, k int64) *Term { // signed compare rune <= k
	if a.sort.kind == SBV {
		return BVCmp("bvsle", a, KOf(a.sort, k))
	}
	return Le(a, IntK(k))
}
func (ex *Exec) rge(a *Term, k int64) *Term {
	if a.sort.kind == SBV {
		return BVCmp("bvsle", KOf(a.sort, k), a)
	}
	return Le(IntK(k), a)
}

func (ex *Exec) validRune(r *Term) *Term {
	return And(ex.rge(r, 0), ex.rle(r, 0x10FFFF), Not(And(ex.rge(r, 0xD800), ex.rle(r, 0xDFFF))))
}

func (ex *Exec) runeLen(r *Term) *Term {
	return Ite(Not(ex.rge(r, 0)), ex.ik(-1), Ite(ex.rle(r, 0x7f), ex.ik(1), Ite(ex.rle(r, 0x7ff), ex.ik(2),
		Ite(And(ex.rge(r, 0xD800), ex.rle(r, 0xDFFF)), ex.ik(-1), Ite(ex.rle(r, 0xFFFF), ex.ik(3), Ite(ex.rle(r, 0x10FFFF), ex.ik(4), ex.ik(-1)))))))
}

func (ex *Exec) encodeRune(r0 *Term) ([4]*Term, *Term) {
	r := Ite(ex.validRune(r0), r0, KOf(r0.sort, 0xFFFD))
	if r.sort.kind == SInt {
		withBounds(r, bi0, big.NewInt(0x10FFFF))
	}
	part := func(shift uint, mod int64, or int64) *Term {
		if r.sort.kind == SBV {
			x := BVOp("bvlshr", r, BVK(32, big.NewInt(int64(shift))))
			if mod > 0 {
				x = BVOp("bvand", x, BVK(32, big.NewInt(mod-1)))
			}
			return BVOp("bvor", Extract(x, 7, 0), ex.kb(or))
		}
		x := DivE(r, IntK(1<<shift))
		if mod > 0 {
			x = ModE(x, IntK(mod))
		}
		return AddK(x, or)
	}
	n := Ite(ex.rle(r, 0x7f), ex.ik(1), Ite(ex.rle(r, 0x7ff), ex.ik(2), Ite(ex.rle(r, 0xFFFF), ex.ik(3), ex.ik(4))))
	is := func(k int64) *Term { return Eq(n, ex.ik(k)) }
	var bs [4]*Term
	bs[0] = Ite(is(1), part(0, 0, 0), Ite(is(2), part(6, 0, 0xC0), Ite(is(3), part(12, 0, 0xE0), part(18, 0, 0xF0))))
	bs[1] = Ite(is(2), part(0, 64, 0x80), Ite(is(3), part(6, 64, 0x80), part(12, 64, 0x80)))
	bs[2] = Ite(is(3), part(0, 64, 0x80), part(6, 64, 0x80))
	bs[3] = part(0, 64, 0x80)
	return bs, n
}

func (ex *Exec) runeBytes(r *Term) *StrVal {
	bs, n := ex.encodeRune(r)
	arr := ConstArr(ex.strArrSort(), ex.kb(0))
	for i := 3; i >= 0; i-- {
		arr = Store(arr, ex.ik(int64(i)), bs[i])
	}
	return &StrVal{arr: arr, off: ex.ik(0), len: n}
}

func (ex *Exec) runeToStr(st *State, r *Term) Val {
	if r.isK() {
		k := r.k
		if r.sort.kind == SBV {
			k = toSigned(k, 32)
		}
		return ex.constStr(string(rune(k.Int64())))
	}
	return ex.runeBytes(r)
}

// next advances a string range.
func (ex *Exec) next(st *State, ins *ssa.Next) Val {
	it := ex.val(st, ins.Iter).(*TupleVal)
	s := it.v[0].(*StrVal)
	p := it.v[1].(*PtrVal)
	i := ex.load(st, p, types.Typ[types.Int], token.NoPos).(*Term)
	rest := isub(s.len, i)
	ok := iltq(i, s.len)
	var dv *TupleVal
	if s.c != nil && i.isK() {
		k := int(i.k.Int64())
		if k >= len(*s.c) {
			return &TupleVal{v: []Val{False, i, KOf(ex.runeRep().sort(), 0)}}
		}
		for j, r := range (*s.c)[k:] {
			_ = j
			n := len(string(r))
			if r == 0xFFFD && (*s.c)[k] != 0xEF {
				n = 1
			}
			ex.store(st, p, ex.ik(int64(k+n)), token.NoPos)
			return &TupleVal{v: []Val{True, i, KOf(ex.runeRep().sort(), int64(r))}}
		}
	}
	dv = ex.decodeRune(func(k int64) *Term { return ex.strAt(s, iadd(i, ex.ik(k))) }, rest).(*TupleVal)
	ex.store(st, p, Ite(ok, iadd(i, dv.v[1].(*Term)), i), token.NoPos)
	return &TupleVal{v: []Val{ok, i, dv.v[0]}}
}

// ---- decimal formatting

func (ex *Exec) itoa(st *State, n *Term) *StrVal {
	if n.isK() && n.sort.kind == SInt {
		return ex.constStr(n.k.String())
	}
	if n.sort.kind == SBV {
		unsup("itoa in bit-vector mode")
	}
	neg := Lt(n, IntK(0))
	if !ex.revealed("itoa") {
		// decimal text as a function of the number; digits are not spelled out
		maxd := int64(20)
		if n.lo != nil && n.hi != nil && n.lo.Sign() >= 0 {
			maxd = int64(len(n.hi.String()))
		}
		arr := App("itoa.text", ex.strArrSort(), n)
		ln := withBounds(App("itoa.len", ex.idxSort(), n), bi1, big.NewInt(maxd))
		if len(n.fb) == 0 {
			c0 := Select(arr, ex.ik(0))
			ex.assumeRaw(And(Le(IntK(1), ln), Le(ln, IntK(maxd)), Eq(neg, Eq(c0, ex.kb('-'))), Implies(Not(neg), And(Le(ex.kb('0'), c0), Le(c0, ex.kb('9'))))))
		}
		ex.note("strconv.Itoa/AppendInt: the decimal text of a number is an uninterpreted function of it")
		return &StrVal{arr: arr, off: ex.ik(0), len: ln}
	}
	a := Ite(neg, Neg(n), n)
	hi := new(big.Int).Lsh(bi1, 63)
	if n.hi != nil && n.lo != nil {
		hi = bmax(n.hi, new(big.Int).Neg(n.lo))
	}
	maxd := len(hi.String())
	p10 := func(k int) *Term { return IntB(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)) }
	d := IntK(int64(maxd))
	for k := maxd - 1; k >= 1; k-- {
		d = Ite(Lt(a, p10(k)), IntK(int64(k)), d)
	}
	if d.op != OConst {
		withBounds(d, bi1, big.NewInt(int64(maxd)))
	}
	digit := func(k int) *Term { // k-th from the right
		x := DivE(a, p10(k))
		if k < maxd-1 {
			x = ModE(x, IntK(10))
		}
		return AddK(x, '0')
	}
	arr := ConstArr(ex.strArrSort(), ex.kb(0))
	sg := Ite(neg, IntK(1), IntK(0))
	canNeg := neg != False
	tot := maxd
	if canNeg {
		tot++
	}
	for j := tot - 1; j >= 0; j-- {
		// position j holds digit (d-1-(j-sg))
		var v *Term
		v = ex.kb(0)
		for dd := maxd; dd >= 1; dd-- {
			pos := func(off int) *Term {
				k := dd - 1 - (j - off)
				if k < 0 || k >= dd {
					return nil
				}
				return digit(k)
			}
			p0 := pos(0)
			var val *Term
			if canNeg {
				var p1 *Term
				if j == 0 {
					p1 = ex.kb('-')
				} else {
					p1 = pos(1)
				}
				switch {
				case p0 == nil && p1 == nil:
					continue
				case p0 == nil:
					val = p1
				case p1 == nil:
					val = p0
				default:
					val = Ite(neg, p1, p0)
				}
			} else {
				if p0 == nil {
					continue
				}
				val = p0
			}
			v = Ite(Eq(d, IntK(int64(dd))), val, v)
		}
		if v.op != OConst {
			withBounds(v, bi0, bvMask(8))
		}
		arr = Store(arr, ex.ik(int64(j)), v)
	}
	ex.note("strconv decimal formatting is modelled by its definition (digits by division)")
	return &StrVal{arr: arr, off: ex.ik(0), len: Add(d, sg)}
}

func (ex *Exec) revealed(name string) bool {
	if ex.root == nil {
		return true
	}
	for _, r := range ex.root.reveal {
		if r == name {
			return true
		}
	}
	return false
}
