package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (ex *Exec) execInstr(fr *Frame, st *State, ins ssa.Instruction) *State {
	if ex.tolerant {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); ok {
					return
				}
				panic(r)
			}
		}()
		if v, ok := ins.(ssa.Value); ok {
			st.vals[v] = &PoisonVal{"init"}
		}
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		st.vals[ins] = ex.alloc(st, ins)
	case *ssa.Store:
		v := ex.val(st, ins.Val)
		p, ok := ex.val(st, ins.Addr).(*PtrVal)
		if !ok {
			unsup("store to %T", ins.Addr)
		}
		ex.store(st, p, v, ins.Pos())
	case *ssa.UnOp:
		st.vals[ins] = ex.unop(st, ins)
	case *ssa.BinOp:
		st.vals[ins] = ex.binop(st, ins.Op, ex.val(st, ins.X), ex.val(st, ins.Y), ins.X.Type(), ins.Y.Type(), ins.Pos())
	case *ssa.Convert:
		st.vals[ins] = ex.convert(st, ex.val(st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.ChangeType:
		st.vals[ins] = ex.val(st, ins.X)
	case *ssa.ChangeInterface:
		st.vals[ins] = ex.val(st, ins.X)
	case *ssa.MakeInterface:
		st.vals[ins] = &IfaceVal{alts: []IfaceAlt{{g: True, typ: ins.X.Type(), val: ex.val(st, ins.X)}}}
	case *ssa.TypeAssert:
		st.vals[ins] = ex.typeAssert(st, ins)
	case *ssa.Extract:
		st.vals[ins] = ex.val(st, ins.Tuple).(*TupleVal).v[ins.Index]
	case *ssa.Field:
		st.vals[ins] = ex.val(st, ins.X).(*StructVal).f[ins.Field]
	case *ssa.FieldAddr:
		p := ex.val(st, ins.X).(*PtrVal)
		ex.nilCheck(st, p, ins.Pos())
		r := &PtrVal{}
		for _, a := range p.alts {
			if a.loc == nil {
				continue
			}
			if a.loc.kind == LOpaque {
				unsup("field of opaque pointer")
			}
			r.alts = append(r.alts, PtrAlt{a.g, subLoc(a.loc, PathElem{field: ins.Field})})
		}
		st.vals[ins] = r
	case *ssa.Index:
		st.vals[ins] = ex.index(st, ins)
	case *ssa.IndexAddr:
		st.vals[ins] = ex.indexAddr(st, ins)
	case *ssa.Slice:
		st.vals[ins] = ex.slice(st, ins)
	case *ssa.MakeSlice:
		n := ex.toIdx(ex.val(st, ins.Len).(*Term), ins.Len.Type())
		c := ex.toIdx(ex.val(st, ins.Cap).(*Term), ins.Cap.Type())
		z := ex.ik(0)
		ex.oblige(st, "makelen", "make length in range", ins.Pos(), And(ileq(z, n), ileq(n, c)))
		elem := ins.Type().Underlying().(*types.Slice).Elem()
		o := ex.newObj(st, elem, func(i int, l Leaf) *Term { return ex.zeroLeaf(l) })
		ex.assume(st, ileq(c, BVorInt(c.sort, maxLen)))
		st.vals[ins] = &SliceVal{elem: elem, obj: o, off: z, len: n, cap: c}
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range ins.Bindings {
			b = append(b, ex.val(st, x))
		}
		st.vals[ins] = &FuncVal{alts: []FuncAlt{{g: True, fn: ins.Fn.(*ssa.Function), bind: b}}}
	case *ssa.Call:
		st2, v := ex.call(fr, st, &ins.Call, ins.Pos(), ins)
		if st2 == nil {
			return nil
		}
		if v == nil {
			v = &TupleVal{}
		}
		st2.vals[ins] = v
		return st2
	case *ssa.Defer:
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, ex.val(st, a))
		}
		d := deferred{g: st.pc, call: &ins.Call, args: args}
		d.fnv = ex.val(st, ins.Call.Value)
		if fr.li.inner[ins.Block()] != nil {
			unsup("defer in loop")
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// run only on paths where the defer statement executed
			common, _, rest := factor(st.pc, d.g)
			_ = common
			g := And(rest...)
			if g != True {
				// conditional: split
				run := st.clone()
				run.pc = And(st.pc, g)
				skip := st
				skip.pc = And(st.pc, Not(g))
				var s2 *State
				if run.pc != False {
					s2, _ = ex.callVal(fr, run, d.call, d.fnv, d.args, ins.Pos(), nil)
				}
				st = ex.merge([]*State{s2, skip})
				if st == nil {
					return nil
				}
				continue
			}
			s2, _ := ex.callVal(fr, st, d.call, d.fnv, d.args, ins.Pos(), nil)
			if s2 == nil {
				return nil
			}
			st = s2
		}
		return st
	case *ssa.Lookup:
		st.vals[ins] = ex.lookup(st, ins)
	case *ssa.Range:
		x := ex.val(st, ins.X)
		if s, ok := x.(*StrVal); ok {
			c := ex.newCell(st, types.Typ[types.Int], ex.ik(0))
			st.vals[ins] = &TupleVal{v: []Val{s, &PtrVal{alts: []PtrAlt{{g: True, loc: &Loc{kind: LCell, cell: c, typ: types.Typ[types.Int]}}}}}}
		} else {
			unsup("range over %T", x)
		}
	case *ssa.Next:
		st.vals[ins] = ex.next(st, ins)
	default:
		unsup("instruction %T %s in %s", ins, ins, fr.fn)
	}
	return st
}

func (ex *Exec) alloc(st *State, ins *ssa.Alloc) Val {
	t := deref(ins.Type())
	if a, ok := t.Underlying().(*types.Array); ok {
		o := ex.newObj(st, a.Elem(), func(i int, l Leaf) *Term { return ex.zeroLeaf(l) })
		return &PtrVal{alts: []PtrAlt{{True, &Loc{kind: LArr, elem: a.Elem(), obj: o, idx: ex.ik(0), n: a.Len(), typ: t}}}}
	}
	c := ex.newCell(st, t, ex.zero(t))
	ex.cellName[c] = ins.Comment
	return &PtrVal{alts: []PtrAlt{{True, &Loc{kind: LCell, cell: c, typ: t}}}}
}

func (ex *Exec) toIdx(x *Term, t types.Type) *Term {
	// convert an integer operand of type t to index sort
	r, _ := ex.rep(t)
	ix := ex.idxSort()
	if ix.kind == SInt {
		if r.kind == SInt {
			return x
		}
		if r.signed {
			unsup("signed bv index in int mode")
		}
		return BV2Nat(x)
	}
	if r.signed {
		return SExt(x, 64)
	}
	return ZExt(x, 64)
}

// wrap brings an integer-mode result back into the range of r.
func (ex *Exec) wrap(st *State, x *Term, r Rep, linear bool, pos token.Pos) *Term {
	lo, hi := r.bounds()
	if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
		return x
	}
	if r.signed && r.w == 64 {
		if ex.pure == 0 && ex.overflow {
			ex.oblige(st, "overflow", "integer overflow", pos, And(Le(IntB(lo), x), Le(x, IntB(hi))))
		}
		return x
	}
	m := new(big.Int).Lsh(bi1, uint(r.w))
	if linear {
		t := x
		if x.hi == nil || x.hi.Cmp(hi) > 0 {
			t = Ite(Gt(x, IntB(hi)), Sub(x, IntB(m)), t)
		}
		if x.lo == nil || x.lo.Cmp(lo) < 0 {
			t = Ite(Lt(x, IntB(lo)), Add(x, IntB(m)), t)
		}
		withBounds(t, lo, hi)
		return t
	}
	return ex.modRange(x, r)
}

func (ex *Exec) modRange(x *Term, r Rep) *Term {
	lo, hi := r.bounds()
	if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
		return x
	}
	m := IntB(new(big.Int).Lsh(bi1, uint(r.w)))
	if !r.signed {
		return ModE(x, m)
	}
	h := IntB(new(big.Int).Lsh(bi1, uint(r.w-1)))
	return Sub(ModE(Add(x, h), m), h)
}

// toUnsigned: int-mode value of signed w-bit as its unsigned bit pattern.
func toUns(x *Term, w int) *Term {
	if x.lo != nil && x.lo.Sign() >= 0 {
		return x
	}
	return ModE(x, IntB(new(big.Int).Lsh(bi1, uint(w))))
}

func (ex *Exec) fromUns(x *Term, r Rep) *Term {
	if !r.signed {
		return x
	}
	return ex.modRange(x, r)
}

// andConst computes x & c for x>=0 in Int.
func andConst(x *Term, c *big.Int) *Term {
	r := IntK(0)
	i := 0
	for i < c.BitLen() {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < c.BitLen() && c.Bit(j) == 1 {
			j++
		}
		lo := IntB(new(big.Int).Lsh(bi1, uint(i)))
		n := IntB(new(big.Int).Lsh(bi1, uint(j-i)))
		r = Add(r, Mul(ModE(DivE(x, lo), n), lo))
		i = j
	}
	return r
}

func (ex *Exec) binop(st *State, op token.Token, X, Y Val, xt, yt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return ex.eqVal(st, X, Y, xt)
	case token.NEQ:
		return Not(ex.eqVal(st, X, Y, xt))
	}
	if xs, ok := X.(*StrVal); ok {
		ys := Y.(*StrVal)
		switch op {
		case token.ADD:
			return ex.concat(xs, ys)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if xs.c != nil && ys.c != nil {
				var b bool
				switch op {
				case token.LSS:
					b = *xs.c < *ys.c
				case token.GTR:
					b = *xs.c > *ys.c
				case token.LEQ:
					b = *xs.c <= *ys.c
				default:
					b = *xs.c >= *ys.c
				}
				return BoolK(b)
			}
			unsup("string ordering")
		}
	}
	if _, ok := X.(*OpaqueVal); ok {
		return &OpaqueVal{id: Fresh("float", IntS), typ: xt}
	}
	x, ok1 := X.(*Term)
	y, ok2 := Y.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", op, X, Y)
	}
	r, _ := ex.rep(xt)
	if r.kind == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
		unsup("bool op %s", op)
	}
	switch op {
	case token.SHL, token.SHR:
		return ex.shift(st, op, x, y, r, yt, pos)
	}
	if r.kind == SBV {
		switch op {
		case token.ADD:
			return BVOp("bvadd", x, y)
		case token.SUB:
			return BVOp("bvsub", x, y)
		case token.MUL:
			return BVOp("bvmul", x, y)
		case token.AND:
			return BVOp("bvand", x, y)
		case token.OR:
			return BVOp("bvor", x, y)
		case token.XOR:
			return BVOp("bvxor", x, y)
		case token.AND_NOT:
			return BVOp("bvand", x, BVNot(y))
		case token.QUO, token.REM:
			ex.oblige(st, "div", "division by zero", pos, Not(Eq(y, BVK(r.w, bi0))))
			n := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[r.signed][op]
			return BVOp(n, x, y)
		}
		s := "u"
		if r.signed {
			s = "s"
		}
		switch op {
		case token.LSS:
			return BVCmp("bv"+s+"lt", x, y)
		case token.LEQ:
			return BVCmp("bv"+s+"le", x, y)
		case token.GTR:
			return BVCmp("bv"+s+"lt", y, x)
		case token.GEQ:
			return BVCmp("bv"+s+"le", y, x)
		}
		unsup("bv op %s", op)
	}
	switch op {
	case token.ADD:
		return ex.wrap(st, Add(x, y), r, true, pos)
	case token.SUB:
		return ex.wrap(st, Sub(x, y), r, true, pos)
	case token.MUL:
		return ex.wrap(st, Mul(x, y), r, false, pos)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.QUO, token.REM:
		ex.oblige(st, "div", "division by zero", pos, Not(Eq(y, IntK(0))))
		q, m := truncDiv(x, y)
		if op == token.QUO {
			return ex.wrap(st, q, r, true, pos)
		}
		return m
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if op != token.AND_NOT && x.isK() {
			x, y = y, x
		}
		if y.isK() {
			c := y.k
			if c.Sign() < 0 {
				c = new(big.Int).Mod(c, new(big.Int).Lsh(bi1, uint(r.w)))
			}
			u := toUns(x, r.w)
			a := andConst(u, c)
			var res *Term
			switch op {
			case token.AND:
				res = a
			case token.OR:
				res = Sub(Add(u, IntB(c)), a)
			case token.XOR:
				res = Sub(Add(u, IntB(c)), Mul(IntK(2), a))
			case token.AND_NOT:
				res = Sub(u, a)
			}
			if u.hi != nil && op != token.AND {
				n := u.hi.BitLen()
				if c.BitLen() > n {
					n = c.BitLen()
				}
				withBounds(res, bi0, bvMask(n))
			} else {
				withBounds(res, bi0, nil)
			}
			return ex.fromUns(res, r)
		}
		if mx, my := posMask(x, 0), posMask(y, 0); op != token.AND_NOT && mx != nil && my != nil && new(big.Int).And(mx, my).Sign() == 0 {
			// no bit in common
			if op == token.AND {
				return IntK(0)
			}
			return Add(x, y)
		}
		bx, by := Int2BV(x, r.w), Int2BV(y, r.w)
		var res *Term
		switch op {
		case token.AND:
			res = BVOp("bvand", bx, by)
		case token.OR:
			res = BVOp("bvor", bx, by)
		case token.XOR:
			res = BVOp("bvxor", bx, by)
		default:
			res = BVOp("bvand", bx, BVNot(by))
		}
		return ex.fromUns(BV2Nat(res), r)
	}
	unsup("int op %s", op)
	return nil
}

func truncDiv(x, y *Term) (q, m *Term) {
	nonneg := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
	if nonneg(x) && (nonneg(y) || y.isK() && y.k.Sign() > 0) {
		return DivE(x, y), ModE(x, y)
	}
	if y.isK() && y.k.Sign() > 0 {
		n := Neg(x)
		q = Ite(Ge(x, IntK(0)), DivE(x, y), Neg(DivE(n, y)))
		m = Ite(Ge(x, IntK(0)), ModE(x, y), Neg(ModE(n, y)))
		return
	}
	ax := Ite(Ge(x, IntK(0)), x, Neg(x))
	ay := Ite(Ge(y, IntK(0)), y, Neg(y))
	q0, m0 := DivE(ax, ay), ModE(ax, ay)
	same := Eq(Ge(x, IntK(0)), Ge(y, IntK(0)))
	q = Ite(same, q0, Neg(q0))
	m = Ite(Ge(x, IntK(0)), m0, Neg(m0))
	return
}

func (ex *Exec) shift(st *State, op token.Token, x, y *Term, r Rep, yt types.Type, pos token.Pos) Val {
	ry, _ := ex.rep(yt)
	// amount as a term
	if ry.signed {
		var nn *Term
		if ry.kind == SBV {
			nn = BVCmp("bvsle", BVK(ry.w, bi0), y)
		} else {
			nn = Le(IntK(0), y)
		}
		ex.oblige(st, "shift", "negative shift", pos, nn)
	}
	if r.kind == SInt {
		if !y.isK() {
			// variable shift: cases over 0..w
			var res *Term = IntK(0)
			yi := y
			if ry.kind == SBV {
				yi = BV2Nat(y)
			}
			if op == token.SHR && r.signed {
				res = Ite(Lt(x, IntK(0)), IntK(-1), IntK(0))
			}
			for i := r.w - 1; i >= 0; i-- {
				p := IntB(new(big.Int).Lsh(bi1, uint(i)))
				var v *Term
				if op == token.SHL {
					v = ex.modRange(Mul(x, p), r)
				} else {
					v = DivE(x, p)
				}
				res = Ite(Eq(yi, IntK(int64(i))), v, res)
			}
			return res
		}
		n := y.k
		if n.Cmp(big.NewInt(int64(r.w))) >= 0 {
			if op == token.SHR && r.signed {
				return Ite(Lt(x, IntK(0)), IntK(-1), IntK(0))
			}
			return IntK(0)
		}
		p := IntB(new(big.Int).Lsh(bi1, uint(n.Uint64())))
		if op == token.SHL {
			return ex.modRange(Mul(x, p), r)
		}
		return DivE(x, p) // floor division = arithmetic shift
	}
	// BV
	var amt *Term
	w := r.w
	if ry.kind == SBV {
		if ry.w > w {
			bigc := BVCmp("bvule", BVK(ry.w, big.NewInt(int64(w))), y)
			amt = Ite(bigc, BVK(w, big.NewInt(int64(w))), Extract(y, w-1, 0))
		} else {
			amt = ZExt(y, w)
		}
	} else {
		if y.isK() {
			if y.k.Cmp(big.NewInt(int64(w))) >= 0 {
				amt = BVK(w, big.NewInt(int64(w)))
			} else {
				amt = BVK(w, y.k)
			}
		} else {
			amt = Ite(Ge(y, IntK(int64(w))), BVK(w, big.NewInt(int64(w))), Int2BV(y, w))
		}
	}
	name := "bvshl"
	if op == token.SHR {
		name = "bvlshr"
		if r.signed {
			name = "bvashr"
		}
	}
	return BVOp(name, x, amt)
}

func (ex *Exec) unop(st *State, ins *ssa.UnOp) Val {
	x := ex.val(st, ins.X)
	switch ins.Op {
	case token.MUL:
		p, ok := x.(*PtrVal)
		if !ok {
			unsup("load via %T", x)
		}
		return ex.load(st, p, ins.Type(), ins.Pos())
	case token.NOT:
		return Not(x.(*Term))
	case token.SUB:
		t, ok := x.(*Term)
		if !ok {
			return &OpaqueVal{id: Fresh("float", IntS), typ: ins.Type()}
		}
		r, _ := ex.rep(ins.Type())
		if r.kind == SBV {
			return BVNeg(t)
		}
		return ex.wrap(st, Neg(t), r, true, ins.Pos())
	case token.XOR:
		t := x.(*Term)
		r, _ := ex.rep(ins.Type())
		if r.kind == SBV {
			return BVNot(t)
		}
		if r.signed {
			return Sub(IntK(-1), t)
		}
		return Sub(IntB(bvMask(r.w)), t)
	}
	unsup("unop %s", ins.Op)
	return nil
}

func (ex *Exec) convert(st *State, X Val, from, to types.Type) Val {
	fr, ok1 := ex.rep(from)
	tr, ok2 := ex.rep(to)
	if ok1 && ok2 && fr.kind != SBool && tr.kind != SBool {
		return ex.convInt(X.(*Term), fr, tr)
	}
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	ts, _ := to.Underlying().(*types.Slice)
	fs, _ := from.Underlying().(*types.Slice)
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	switch {
	case isStr(tb) && isStr(fb):
		return X
	case isStr(tb) && fs != nil:
		s := X.(*SliceVal)
		if l := ex.leaves(fs.Elem()); len(l) == 1 && isByte(fs.Elem()) {
			src := st
			if s.snap != nil {
				src = s.snap
			}
			return &StrVal{arr: Select(ex.heapGet(src, fs.Elem(), l[0]), s.obj), off: s.off, len: s.len}
		}
		unsup("conversion []rune to string")
	case ts != nil && isStr(fb):
		s := X.(*StrVal)
		if !isByte(ts.Elem()) {
			if s.c != nil {
				rs := []rune(*s.c)
				o := ex.newObj(st, ts.Elem(), func(i int, l Leaf) *Term {
					a := ex.zeroLeaf(l)
					for j, r := range rs {
						a = Store(a, ex.ik(int64(j)), KOf(l.sort, int64(r)))
					}
					return a
				})
				n := ex.ik(int64(len(rs)))
				return &SliceVal{elem: ts.Elem(), obj: o, off: ex.ik(0), len: n, cap: n}
			}
			unsup("conversion string to []rune")
		}
		o := ex.newObj(st, ts.Elem(), func(i int, l Leaf) *Term { return s.arr })
		return &SliceVal{elem: ts.Elem(), obj: o, off: s.off, len: s.len, cap: s.len}
	case isStr(tb) && ok1:
		return ex.runeToStr(st, ex.convInt(X.(*Term), fr, ex.runeRep()))
	case tb != nil && tb.Info()&types.IsFloat != 0:
		return &OpaqueVal{id: Fresh("float", IntS), typ: to}
	case ok2 && fb != nil && fb.Info()&types.IsFloat != 0:
		return ex.freshVal(st, "fromfloat", to)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		unsup("unsafe conversion")
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (ex *Exec) runeRep() Rep {
	r, _ := ex.rep(types.Typ[types.Int32])
	return r
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) convInt(x *Term, fr, tr Rep) *Term {
	if fr.kind == SBV && tr.kind == SBV {
		if fr.signed {
			return SExt(x, tr.w)
		}
		return ZExt(x, tr.w)
	}
	if fr.kind == SInt && tr.kind == SInt {
		return ex.modRange(x, tr)
	}
	if fr.kind == SInt {
		return Int2BV(toUns(x, maxInt(fr.w, tr.w)), tr.w)
	}
	// BV -> Int: truncate first when narrowing
	if fr.signed {
		unsup("signed bv to int conversion")
	}
	if tr.w < fr.w || tr.w == fr.w && tr.signed {
		u := BV2Nat(ZExt(x, minInt(fr.w, tr.w)))
		return ex.modRange(u, tr)
	}
	return BV2Nat(x)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- equality

func (ex *Exec) eqVal(st *State, X, Y Val, t types.Type) *Term {
	switch x := X.(type) {
	case *Term:
		return Eq(x, Y.(*Term))
	case *StructVal:
		y := Y.(*StructVal)
		u := t.Underlying().(*types.Struct)
		r := True
		for i := range x.f {
			r = And(r, ex.eqVal(st, x.f[i], y.f[i], u.Field(i).Type()))
		}
		return r
	case *ArrVal:
		y := Y.(*ArrVal)
		r := True
		for i := range x.e {
			r = And(r, ex.eqVal(st, x.e[i], y.e[i], t.Underlying().(*types.Array).Elem()))
		}
		return r
	case *SliceVal:
		y := Y.(*SliceVal)
		// only comparisons with nil are legal
		if y.obj.isK() && y.obj.k.Sign() == 0 {
			return Eq(x.obj, IntK(0))
		}
		return Eq(y.obj, IntK(0))
	case *StrVal:
		return ex.eqStr(x, Y.(*StrVal))
	case *PtrVal:
		y := Y.(*PtrVal)
		r := False
		for _, a := range x.alts {
			for _, b := range y.alts {
				g := And(a.g, b.g)
				switch {
				case a.loc == nil && b.loc == nil:
				case a.loc == nil || b.loc == nil:
					continue
				case a.loc.kind == LOpaque || b.loc.kind == LOpaque:
					if a.loc.kind == LOpaque && b.loc.kind == LOpaque {
						g = And(g, Eq(a.loc.id, b.loc.id))
					} else {
						g = And(g, Fresh("ptreq", BoolS))
					}
				case locKey(a.loc) == locKey(b.loc):
				default:
					if a.loc.kind == LElem && b.loc.kind == LElem {
						unsup("element pointer comparison")
					}
					continue
				}
				r = Or(r, g)
			}
		}
		return r
	case *IfaceVal:
		y, ok := Y.(*IfaceVal)
		if !ok {
			unsup("iface eq with %T", Y)
		}
		r := False
		for _, a := range x.alts {
			for _, b := range y.alts {
				g := And(a.g, b.g)
				if g == False {
					continue
				}
				switch {
				case a.opaque != nil && b.opaque != nil:
					g = And(g, Eq(a.opaque, b.opaque))
				case a.opaque != nil || b.opaque != nil:
					o, c := a, b
					if b.opaque != nil {
						o, c = b, a
					}
					if c.typ == nil {
						g = And(g, Eq(o.opaque, IntK(0)))
					} else if o.opaque.isK() {
						// a sentinel value held in an unmodified error variable is
						// a pointer of its own; distinct from locally built values
						continue
					} else if e := ex.eqDyn(st, o.opaque, c); e != nil {
						g = And(g, e)
					} else {
						g = And(g, Fresh("ifaceeq", BoolS))
					}
				case a.typ == nil && b.typ == nil:
				case a.typ == nil || b.typ == nil:
					continue
				case types.Identical(a.typ, b.typ):
					g = And(g, ex.eqVal(st, a.val, b.val, a.typ))
				default:
					continue
				}
				r = Or(r, g)
			}
		}
		return r
	case *FuncVal:
		r := False
		y := Y.(*FuncVal)
		if len(y.alts) == 1 && y.alts[0].fn == nil && y.alts[0].opaque == nil {
			for _, a := range x.alts {
				if a.fn == nil && a.opaque == nil {
					r = Or(r, a.g)
				}
			}
			return r
		}
		return ex.eqVal(st, Y, X, t)
	case *OpaqueVal:
		return Eq(x.id, Y.(*OpaqueVal).id)
	}
	unsup("eq on %T", X)
	return nil
}

func (ex *Exec) eqStr(x, y *StrVal) *Term {
	if x.c != nil && y.c != nil {
		return BoolK(*x.c == *y.c)
	}
	if x == y {
		return True
	}
	if y.c == nil && x.c != nil {
		x, y = y, x
	}
	r := Eq(x.len, y.len)
	if y.c != nil {
		for i := 0; i < len(*y.c); i++ {
			r = And(r, Eq(ex.strAt(x, ex.ik(int64(i))), KOf(ex.byteSort(), int64((*y.c)[i]))))
		}
		return r
	}
	b := NewBound("k", ex.idxSort())
	body := Implies(And(ileq(ex.ik(0), b), iltq(b, x.len)), Eq(ex.strAt(x, b), ex.strAt(y, b)))
	return And(r, Forall(b, body))
}

func (ex *Exec) strAt(s *StrVal, i *Term) *Term {
	x := Select(s.arr, iadd(s.off, i))
	if x.sort.kind == SInt {
		boundIte(x, Leaf{lo: bi0, hi: bvMask(8)}, 0)
	}
	return x
}

func (ex *Exec) concat(a, b *StrVal) *StrVal {
	if a.c != nil && b.c != nil {
		return ex.constStr(*a.c + *b.c)
	}
	if b.c != nil && *b.c == "" {
		return a
	}
	if a.c != nil && *a.c == "" {
		return b
	}
	return &StrVal{arr: CopyArr(a.arr, iadd(a.off, a.len), b.arr, b.off, b.len), off: a.off, len: iadd(a.len, b.len)}
}

// ---------------------------------------------------------------- index, slice

func (ex *Exec) boundsOK(i, n *Term) *Term {
	return And(ileq(KOf(i.sort, 0), i), iltq(i, n))
}

func (ex *Exec) indexAddr(st *State, ins *ssa.IndexAddr) Val {
	i := ex.toIdx(ex.val(st, ins.Index).(*Term), ins.Index.Type())
	switch x := ex.val(st, ins.X).(type) {
	case *SliceVal:
		ex.oblige(st, "bounds", "index in range", ins.Pos(), ex.boundsOK(i, x.len))
		return &PtrVal{alts: []PtrAlt{{True, &Loc{kind: LElem, elem: x.elem, obj: x.obj, idx: iadd(x.off, i), typ: x.elem, snap: x.snap}}}}
	case *PtrVal:
		ex.nilCheck(st, x, ins.Pos())
		at := deref(ins.X.Type()).Underlying().(*types.Array)
		ex.oblige(st, "bounds", "array index in range", ins.Pos(), ex.boundsOK(i, ex.ik(at.Len())))
		r := &PtrVal{}
		for _, a := range x.alts {
			if a.loc == nil {
				continue
			}
			if a.loc.kind == LArr {
				r.alts = append(r.alts, PtrAlt{a.g, &Loc{kind: LElem, elem: a.loc.elem, obj: a.loc.obj, idx: iadd(a.loc.idx, i), typ: a.loc.elem, snap: a.loc.snap}})
			} else if a.loc.kind == LOpaque {
				unsup("index of opaque pointer")
			} else {
				r.alts = append(r.alts, PtrAlt{a.g, subLoc(a.loc, PathElem{idx: i})})
			}
		}
		return r
	}
	unsup("indexaddr %s", ins)
	return nil
}

func (ex *Exec) index(st *State, ins *ssa.Index) Val {
	i := ex.toIdx(ex.val(st, ins.Index).(*Term), ins.Index.Type())
	switch x := ex.val(st, ins.X).(type) {
	case *StrVal:
		ex.oblige(st, "bounds", "string index in range", ins.Pos(), ex.boundsOK(i, x.len))
		return ex.strAt(x, i)
	case *ArrVal:
		ex.oblige(st, "bounds", "array index in range", ins.Pos(), ex.boundsOK(i, ex.ik(int64(len(x.e)))))
		return ex.pathGet(x, []PathElem{{idx: i}})
	}
	unsup("index %s", ins)
	return nil
}

func (ex *Exec) lookup(st *State, ins *ssa.Lookup) Val {
	if s, ok := ex.val(st, ins.X).(*StrVal); ok {
		i := ex.toIdx(ex.val(st, ins.Index).(*Term), ins.Index.Type())
		ex.oblige(st, "bounds", "string index in range", ins.Pos(), ex.boundsOK(i, s.len))
		return ex.strAt(s, i)
	}
	unsup("map lookup")
	return nil
}

func (ex *Exec) slice(st *State, ins *ssa.Slice) Val {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.toIdx(ex.val(st, v).(*Term), v.Type())
	}
	lo, hi, mx := get(ins.Low), get(ins.High), get(ins.Max)
	z := ex.ik(0)
	if lo == nil {
		lo = z
	}
	switch x := ex.val(st, ins.X).(type) {
	case *SliceVal:
		if hi == nil {
			hi = x.len
		}
		c := x.cap
		if mx != nil {
			ex.oblige(st, "slice", "slice max in range", ins.Pos(), And(ileq(hi, mx), ileq(mx, x.cap)))
			c = mx
		}
		if ins.High == nil && mx == nil {
			ex.oblige(st, "slice", "slice bounds in range", ins.Pos(), And(ileq(z, lo), ileq(lo, x.len)))
		} else {
			ex.oblige(st, "slice", "slice bounds in range", ins.Pos(), And(ileq(z, lo), ileq(lo, hi), ileq(hi, c)))
		}
		return &SliceVal{elem: x.elem, obj: x.obj, off: iadd(x.off, lo), len: isub(hi, lo), cap: isub(c, lo), snap: x.snap}
	case *StrVal:
		if hi == nil {
			hi = x.len
		}
		ex.oblige(st, "slice", "string slice bounds in range", ins.Pos(), And(ileq(z, lo), ileq(lo, hi), ileq(hi, x.len)))
		if x.c != nil && lo.isK() && hi.isK() {
			l, h := lo.k.Int64(), hi.k.Int64()
			if 0 <= l && l <= h && h <= int64(len(*x.c)) {
				return ex.constStr((*x.c)[l:h])
			}
		}
		return &StrVal{arr: x.arr, off: iadd(x.off, lo), len: isub(hi, lo)}
	case *PtrVal:
		ex.nilCheck(st, x, ins.Pos())
		at := deref(ins.X.Type()).Underlying().(*types.Array)
		n := ex.ik(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		ex.oblige(st, "slice", "array slice bounds in range", ins.Pos(), And(ileq(z, lo), ileq(lo, hi), ileq(hi, c), ileq(c, n)))
		var r Val
		for _, a := range x.alts {
			if a.loc == nil {
				continue
			}
			if a.loc.kind != LArr {
				if !readOnce(ins) {
					unsup("slice of array inside a struct (%s)", ins)
				}
				// only read before anything can change: a copy will do
				av, ok := ex.loadLoc(st, a.loc, deref(ins.X.Type())).(*ArrVal)
				if !ok {
					unsup("slice of array inside a struct (%s)", ins)
				}
				o := ex.newObj(st, at.Elem(), func(i int, l Leaf) *Term { return ex.zeroLeaf(l) })
				for i := range av.e {
					ex.storeElem(st, at.Elem(), o, ex.ik(int64(i)), av.e[i])
				}
				s := &SliceVal{elem: at.Elem(), obj: o, off: lo, len: isub(hi, lo), cap: isub(c, lo)}
				if r == nil {
					r = s
				} else {
					r = ex.iteVal(a.g, s, r)
				}
				continue
			}
			s := &SliceVal{elem: at.Elem(), obj: a.loc.obj, off: iadd(a.loc.idx, lo), len: isub(hi, lo), cap: isub(c, lo), snap: a.loc.snap}
			if r == nil {
				r = s
			} else {
				r = ex.iteVal(a.g, s, r)
			}
		}
		return r
	}
	unsup("slice %s", ins)
	return nil
}

// readOnce: the slice is only the source of an append, copy or string
// conversion that follows with no store or call in between.
func readOnce(ins *ssa.Slice) bool {
	refs := ins.Referrers()
	if refs == nil {
		return false
	}
	n := 0
	var use ssa.Instruction
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Convert:
			use = u
		case *ssa.Call:
			b, ok := u.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" && b.Name() != "copy" || len(u.Call.Args) != 2 || u.Call.Args[1] != ssa.Value(ins) || u.Call.Args[0] == ssa.Value(ins) {
				return false
			}
			use = u
		default:
			return false
		}
		n++
	}
	if n != 1 || use.Block() != ins.Block() {
		return false
	}
	on := false
	for _, i := range ins.Block().Instrs {
		if i == ssa.Instruction(ins) {
			on = true
			continue
		}
		if i == use {
			return on
		}
		if !on {
			continue
		}
		switch i.(type) {
		case *ssa.Store, *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Send, *ssa.MapUpdate:
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------- interfaces

func (ex *Exec) typeAssert(st *State, ins *ssa.TypeAssert) Val {
	x := ex.val(st, ins.X).(*IfaceVal)
	ok := False
	var val Val
	toIface := types.IsInterface(ins.AssertedType)
	if toIface {
		r := &IfaceVal{}
		it := ins.AssertedType.Underlying().(*types.Interface)
		for _, a := range x.alts {
			switch {
			case a.opaque != nil:
				b := App("implements:"+typeKey(ins.AssertedType), BoolS, a.opaque)
				g := And(a.g, b)
				ok = Or(ok, g)
				r.alts = append(r.alts, IfaceAlt{g: g, opaque: a.opaque})
			case a.typ == nil:
			default:
				if types.Implements(a.typ, it) {
					ok = Or(ok, a.g)
					r.alts = append(r.alts, a)
				}
			}
		}
		r.alts = append(r.alts, IfaceAlt{g: Not(ok)})
		val = r
	} else {
		z := ex.zero(ins.AssertedType)
		val = z
		for _, a := range x.alts {
			switch {
			case a.opaque != nil:
				b := App("istype:"+typeKey(ins.AssertedType), BoolS, a.opaque)
				g := And(a.g, b)
				if g == False {
					continue
				}
				var ts []*Term
				for _, l := range ex.leaves(ins.AssertedType) {
					ts = append(ts, withBounds(App("payload:"+typeKey(ins.AssertedType)+l.path, l.sort, a.opaque), l.lo, l.hi))
				}
				v, _ := ex.unflatten(ins.AssertedType, ts)
				if ex.entrySt != nil {
					// what an unknown value holds was there before the call
					ex.assumeTyped(ex.entrySt, v)
				}
				ok = Or(ok, g)
				val = ex.iteVal(g, v, val)
			case a.typ == nil:
			case types.Identical(a.typ, ins.AssertedType):
				ok = Or(ok, a.g)
				val = ex.iteVal(a.g, a.val, val)
			}
		}
	}
	if ins.CommaOk {
		return &TupleVal{v: []Val{val, ok}}
	}
	ex.oblige(st, "typeassert", "type assertion holds", ins.Pos(), ok)
	return val
}

// ---------------------------------------------------------------- calls

func (ex *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, site ssa.Instruction) (*State, Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	fv := ex.val(st, c.Value)
	return ex.callVal(fr, st, c, fv, args, pos, site)
}

func (ex *Exec) callVal(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, site ssa.Instruction) (*State, Val) {
	if c.IsInvoke() {
		return ex.invoke(fr, st, c, fv.(*IfaceVal), args, pos)
	}
	f, ok := fv.(*FuncVal)
	if !ok {
		unsup("call of %T", fv)
	}
	if len(f.alts) == 1 {
		a := f.alts[0]
		if a.bi != nil {
			return ex.builtin(fr, st, a.bi, c, args, pos)
		}
		if a.fn != nil {
			return ex.callFn(fr, st, a.fn, args, a.bind, pos, site)
		}
	}
	var outs []*State
	keep := st.vals
	for _, a := range f.alts {
		if a.g == False {
			continue
		}
		if a.fn == nil && a.opaque == nil {
			ex.oblige(st, "nil", "call of nil function", pos, Not(a.g))
			continue
		}
		s := st.clone()
		s.pc = And(st.pc, a.g)
		if s.pc == False {
			continue
		}
		var s2 *State
		var v Val
		if a.opaque != nil {
			s2, v = ex.opaqueCall(fr, s, a.opaque, c.Signature(), args, "func")
		} else {
			s2, v = ex.callFn(fr, s, a.fn, args, a.bind, pos, site)
		}
		if s2 != nil {
			s2.vals = map[ssa.Value]Val{nil: v}
			outs = append(outs, s2)
		}
	}
	m := ex.merge(outs)
	if m == nil {
		return nil, nil
	}
	v := m.vals[nil]
	m.vals = keep
	return m, v
}

// opaqueCall models a call to an unknown function as a pure function of its
// scalar arguments (stated as an assumption).
func (ex *Exec) opaqueCall(fr *Frame, st *State, id *Term, sig *types.Signature, args []Val, what string) (*State, Val) {
	ex.note("calls through an unknown %s value are taken to be pure functions of their scalar arguments", what)
	ts := []*Term{id}
	for i, a := range args {
		if i < sig.Params().Len() {
			for _, t := range ex.flatten(a, sig.Params().At(i).Type()) {
				ts = append(ts, t)
			}
		}
	}
	return st, ex.ufResult("opaque:"+what+":"+typeKey(sig), sig.Results(), ts)
}

func (ex *Exec) ufResult(name string, res *types.Tuple, ts []*Term) Val {
	mk := func(i int, t types.Type) Val {
		var out []*Term
		for _, l := range ex.leaves(t) {
			out = append(out, withBounds(App(fmt.Sprintf("%s#%d%s", name, i, l.path), l.sort, ts...), l.lo, l.hi))
		}
		v, _ := ex.unflatten(t, out)
		return v
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(0, res.At(0).Type())
	}
	tv := &TupleVal{}
	for i := 0; i < res.Len(); i++ {
		tv.v = append(tv.v, mk(i, res.At(i).Type()))
	}
	return tv
}

// payload is the value an unknown interface value holds, if it is of type t;
// nil if t is not made of scalars only.
func (ex *Exec) payload(o *Term, t types.Type) Val {
	if hasRef(t) {
		return nil
	}
	var ts []*Term
	for _, l := range ex.leaves(t) {
		ts = append(ts, withBounds(App("payload:"+typeKey(t)+l.path, l.sort, o), l.lo, l.hi))
	}
	v, _ := ex.unflatten(t, ts)
	return v
}

func (ex *Exec) eqDyn(st *State, o *Term, c IfaceAlt) *Term {
	pv := ex.payload(o, c.typ)
	if pv == nil {
		return nil
	}
	return And(App("istype:"+typeKey(c.typ), BoolS, o), ex.eqVal(st, pv, c.val, c.typ))
}

// splitDyn tells the dynamic types named by the contract apart.
func (ex *Exec) splitDyn(iv *IfaceVal, c *ssa.CallCommon) *IfaceVal {
	if ex.root == nil || len(ex.root.dyn) == 0 {
		return iv
	}
	out := &IfaceVal{}
	for _, a := range iv.alts {
		if a.opaque == nil {
			out.alts = append(out.alts, a)
			continue
		}
		rest := a.g
		for _, n := range ex.root.dyn {
			sp := ex.prog.pkgs[ex.root.pkg]
			if sp == nil || sp.Type(n) == nil {
				unsup("type %s not found", n)
			}
			t := sp.Type(n).Type()
			it, ok := c.Value.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(t, it) {
				continue
			}
			pv := ex.payload(a.opaque, t)
			if pv == nil {
				continue
			}
			is := App("istype:"+typeKey(t), BoolS, a.opaque)
			out.alts = append(out.alts, IfaceAlt{g: And(rest, is), typ: t, val: pv})
			rest = And(rest, Not(is))
		}
		a.g = rest
		out.alts = append(out.alts, a)
	}
	return out
}

func (ex *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, iv *IfaceVal, args []Val, pos token.Pos) (*State, Val) {
	var outs []*State
	keep := st.vals
	iv = ex.splitDyn(iv, c)
	for _, a := range iv.alts {
		if And(st.pc, a.g) == False {
			continue
		}
		if a.opaque == nil && a.typ == nil {
			ex.oblige(st, "nil", "method call on nil interface", pos, Not(a.g))
			continue
		}
		s := st.clone()
		s.pc = And(st.pc, a.g)
		var s2 *State
		var v Val
		if a.opaque != nil {
			sig := c.Method.Type().(*types.Signature)
			s2, v = ex.opaqueCall(fr, s, a.opaque, sig, args, c.Method.FullName())
		} else {
			fn := ex.prog.ssa.LookupMethod(a.typ, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				unsup("method %s of %s", c.Method.Name(), a.typ)
			}
			s2, v = ex.callFn(fr, s, fn, append([]Val{a.val}, args...), nil, pos, nil)
		}
		if s2 != nil {
			s2.vals = map[ssa.Value]Val{nil: v}
			outs = append(outs, s2)
		}
	}
	m := ex.merge(outs)
	if m == nil {
		return nil, nil
	}
	v := m.vals[nil]
	m.vals = keep
	return m, v
}

func (ex *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, site ssa.Instruction) (*State, Val) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if s2, v, ok := ex.intrinsic(fr, st, fn, name, args, pos); ok {
		return s2, v
	}
	if sd := ex.prog.specs[fn]; sd {
		return st, ex.specCall(st, fn, args)
	}
	if ct := ex.prog.contractFor(fn); ct != nil && ct.modular && ct.det && ex.pure > 0 && !ex.bmc {
		return st, ex.ufResult("det:"+fn.String(), fn.Signature.Results(), ex.specArgs(st, fn, args))
	}
	if ct := ex.prog.contractFor(fn); ct != nil && ct.modular && ex.pure == 0 && !ex.bmc {
		return ex.applyContract(fr, st, ct, fn, args, pos)
	}
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn && f.depth > 12 {
			unsup("recursion in %s", fn)
		}
	}
	if fn.Blocks == nil {
		unsup("external function %s", fn)
	}
	if fn.Pkg != nil && !ex.prog.repoPkg(fn.Pkg) && !ex.prog.inlineable(fn) {
		unsup("library function %s has no model", fn)
	}
	if ex.pure == 0 {
		ex.inlined[shortFn(fn)] = true
	}
	if strings.HasSuffix(fn.Name(), "init") && ex.tolerant && fn.Name() == "init" && fr != nil {
		return st, nil
	}
	return ex.runFunc(st, fn, args, bind, fr)
}

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) (*State, Val) {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceVal:
			return st, x.len
		case *StrVal:
			return st, x.len
		case *ArrVal:
			return st, ex.ik(int64(len(x.e)))
		case *PtrVal:
			return st, ex.ik(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
		unsup("len of %T", args[0])
	case "cap":
		switch x := args[0].(type) {
		case *SliceVal:
			return st, x.cap
		case *PtrVal:
			return st, ex.ik(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
		unsup("cap of %T", args[0])
	case "append":
		return st, ex.appendSlice(st, args[0].(*SliceVal), args[1])
	case "copy":
		d := args[0].(*SliceVal)
		var srcLen, srcOff *Term
		src := func(l Leaf) *Term { return nil }
		switch s := args[1].(type) {
		case *SliceVal:
			srcLen, srcOff = s.len, s.off
			rd := st
			if s.snap != nil {
				rd = s.snap
			}
			hs := map[string]*Term{}
			for _, l := range ex.leaves(s.elem) {
				hs[l.path] = Select(ex.heapGet(rd, s.elem, l), s.obj)
			}
			src = func(l Leaf) *Term { return hs[l.path] }
		case *StrVal:
			srcLen, srcOff = s.len, s.off
			src = func(l Leaf) *Term { return s.arr }
		}
		n := Ite(ileq(d.len, srcLen), d.len, srcLen)
		for _, l := range ex.leaves(d.elem) {
			h := ex.heapGet(st, d.elem, l)
			ex.heapSet(st, d.elem, l, Store(h, d.obj, CopyArr(Select(h, d.obj), d.off, src(l), srcOff, n)))
		}
		return st, n
	case "print", "println":
		return st, nil
	case "min", "max":
		r, _ := ex.rep(c.Args[0].Type())
		v := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			var le *Term
			if r.kind == SBV {
				n := "bvule"
				if r.signed {
					n = "bvsle"
				}
				le = BVCmp(n, v, y)
			} else {
				le = Le(v, y)
			}
			if b.Name() == "min" {
				v = Ite(le, v, y)
			} else {
				v = Ite(le, y, v)
			}
		}
		return st, v
	case "recover":
		return st, ex.zero(types.NewInterfaceType(nil, nil))
	case "ssa:wrapnilchk":
		p := args[0].(*PtrVal)
		ex.nilCheck(st, p, pos)
		r := &PtrVal{}
		for _, a := range p.alts {
			if a.loc != nil {
				r.alts = append(r.alts, a)
			}
		}
		return st, r
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

func (ex *Exec) appendSlice(st *State, s *SliceVal, add Val) *SliceVal {
	var n, off *Term
	arrs := map[string]*Term{}
	switch a := add.(type) {
	case *SliceVal:
		n, off = a.len, a.off
		rd := st
		if a.snap != nil {
			rd = a.snap
		}
		for _, l := range ex.leaves(s.elem) {
			arrs[l.path] = Select(ex.heapGet(rd, s.elem, l), a.obj)
		}
	case *StrVal:
		n, off = a.len, a.off
		arrs[""] = a.arr
	default:
		unsup("append of %T", add)
	}
	if n.isK() && n.k.Sign() == 0 {
		return s
	}
	if s.snap != nil {
		unsup("append to snapshot slice")
	}
	newLen := iadd(s.len, n)
	fits := ileq(newLen, s.cap)
	// append of zero elements never reallocates
	if !n.isK() {
		fits = Or(fits, Eq(n, KOf(n.sort, 0)))
	}
	w := st.w
	obj := Ite(fits, s.obj, w)
	ncap := Fresh("appcap", s.cap.sort)
	ncap = withBounds(ncap, bi0, maxLen)
	if ex.bound > 0 {
		unsup("append inside a quantifier")
	}
	ex.assume(st, And(ileq(newLen, ncap), ileq(ncap, BVorInt(ncap.sort, maxLen))))
	for _, l := range ex.leaves(s.elem) {
		h := ex.heapGet(st, s.elem, l)
		old := Select(h, s.obj)
		na := CopyArr(old, iadd(s.off, s.len), arrs[l.path], off, n)
		ex.heapSet(st, s.elem, l, Store(h, obj, na))
	}
	st.w = AddK(w, 1)
	return &SliceVal{elem: s.elem, obj: obj, off: s.off, len: newLen, cap: Ite(fits, s.cap, ncap)}
}

// posMask: a mask holding every bit that may be set in the non-negative x.
func posMask(t *Term, depth int) *big.Int {
	if t.isK() {
		if t.k.Sign() < 0 {
			return nil
		}
		return t.k
	}
	if depth < 8 {
		switch t.op {
		case OPoly:
			if t.k.Sign() < 0 {
				break
			}
			m := new(big.Int).Set(t.k)
			ok := true
			for i, a := range t.args {
				c := t.coefs[i]
				if c.Sign() <= 0 {
					ok = false
					break
				}
				k := c.TrailingZeroBits()
				if new(big.Int).Rsh(c, k).Cmp(bi1) != 0 {
					ok = false
					break
				}
				am := posMask(a, depth+1)
				if am == nil {
					ok = false
					break
				}
				am = new(big.Int).Lsh(am, k)
				if new(big.Int).And(am, m).Sign() != 0 {
					ok = false
					break
				}
				m.Or(m, am)
			}
			if ok {
				return m
			}
		case OIte:
			a, b := posMask(t.args[1], depth+1), posMask(t.args[2], depth+1)
			if a == nil || b == nil {
				return nil
			}
			return new(big.Int).Or(a, b)
		}
	}
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		return bvMask(t.hi.BitLen())
	}
	return nil
}
