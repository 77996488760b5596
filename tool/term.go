package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind uint8

const (
	SBool SortKind = iota
	SInt
	SBV
	SArray
)

type Sort struct {
	kind      SortKind
	w         int
	idx, elem *Sort
	str       string
}

var (
	BoolS = &Sort{kind: SBool, str: "Bool"}
	IntS  = &Sort{kind: SInt, str: "Int"}
)

var bvSorts = map[int]*Sort{}
var arrSorts = map[string]*Sort{}

func BVS(w int) *Sort {
	if s := bvSorts[w]; s != nil {
		return s
	}
	s := &Sort{kind: SBV, w: w, str: fmt.Sprintf("(_ BitVec %d)", w)}
	bvSorts[w] = s
	return s
}

func ArrS(idx, elem *Sort) *Sort {
	k := fmt.Sprintf("(Array %s %s)", idx.str, elem.str)
	if s := arrSorts[k]; s != nil {
		return s
	}
	s := &Sort{kind: SArray, idx: idx, elem: elem, str: k}
	arrSorts[k] = s
	return s
}

// ---------------------------------------------------------------- terms

type Op uint8

const (
	OConst Op = iota // Bool/Int/BV constant (k)
	OVar             // free symbol
	OBound           // bound variable
	ONot
	OAnd
	OOr
	OEq
	OIte
	OPoly // k + sum coefs[i]*args[i]
	OMul  // product of atoms (>=2)
	OLe   // args[0] <= args[1] over Int
	ODiv  // SMT div
	OMod  // SMT mod
	OSelect
	OStore
	OConstArr
	OApp    // UF
	OForall // args[0]=boundvar args[1]=body
	OBV     // bit-vector op named by name; i1,i2 params
	OBV2Nat
	OInt2BV
	OCopy // array copy(dst, doff, src, soff, n): dst with n elements from src
)

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	name   string
	k      *big.Int
	i1, i2 int
	coefs  []*big.Int
	lo, hi *big.Int
	fb     []*Term // free bound vars
	hasQ   bool    // contains a quantifier
	size   int
	mf     int // largest fresh-symbol number inside
}

var termTab = map[string]*Term{}
var termList []*Term

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op))
	sb.WriteString(t.sort.str)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.k != nil {
		sb.WriteString(t.k.Text(36))
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.i1))
	sb.WriteByte(',')
	sb.WriteString(strconv.Itoa(t.i2))
	for i, a := range t.args {
		sb.WriteByte(' ')
		if t.coefs != nil {
			sb.WriteString(t.coefs[i].Text(36))
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o := termTab[key]; o != nil {
		return o
	}
	t.id = len(termList) + 1
	t.size = 1
	if t.op == OVar {
		if i := strings.LastIndexByte(t.name, '!'); i >= 0 {
			t.mf, _ = strconv.Atoi(t.name[i+1:])
		}
	}
	for _, a := range t.args {
		if a.mf > t.mf {
			t.mf = a.mf
		}
		t.hasQ = t.hasQ || a.hasQ
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.op == OForall {
		t.hasQ = true
	}
	t.fb = collectFB(t)
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func collectFB(t *Term) []*Term {
	if t.op == OBound {
		return []*Term{t}
	}
	var out []*Term
	first := true
	for _, a := range t.args {
		if len(a.fb) == 0 {
			continue
		}
		if first {
			out = a.fb
			first = false
			continue
		}
		for _, b := range a.fb {
			found := false
			for _, c := range out {
				if c == b {
					found = true
					break
				}
			}
			if !found {
				n := make([]*Term, len(out), len(out)+1)
				copy(n, out)
				out = append(n, b)
			}
		}
	}
	if t.op == OForall {
		var o2 []*Term
		for _, b := range out {
			if b != t.args[0] {
				o2 = append(o2, b)
			}
		}
		return o2
	}
	return out
}

var bi0, bi1 = big.NewInt(0), big.NewInt(1)

var True = intern(&Term{op: OConst, sort: BoolS, k: bi1})
var False = intern(&Term{op: OConst, sort: BoolS, k: bi0})

func BoolK(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntK(n int64) *Term { return IntB(big.NewInt(n)) }
func IntB(n *big.Int) *Term {
	t := intern(&Term{op: OConst, sort: IntS, k: n})
	t.lo, t.hi = n, n
	return t
}

func BVK(w int, n *big.Int) *Term {
	m := new(big.Int).Lsh(bi1, uint(w))
	v := new(big.Int).Mod(n, m)
	return intern(&Term{op: OConst, sort: BVS(w), k: v})
}

func KOf(s *Sort, n int64) *Term {
	switch s.kind {
	case SInt:
		return IntK(n)
	case SBV:
		return BVK(s.w, big.NewInt(n))
	case SBool:
		return BoolK(n != 0)
	case SArray:
		return ConstArr(s, KOf(s.elem, n))
	}
	panic("KOf")
}

var freshN int

func resetFresh() { freshN = 0 }

func Fresh(prefix string, s *Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", prefix, freshN), s)
}

func Var(name string, s *Sort) *Term {
	return intern(&Term{op: OVar, sort: s, name: sanitize(name)})
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$", c) {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// BVarBounded creates an Int variable with known bounds.
func withBounds(t *Term, lo, hi *big.Int) *Term {
	if t.sort.kind == SInt && t.op != OConst {
		if t.lo == nil || lo != nil && lo.Cmp(t.lo) > 0 {
			t.lo = lo
		}
		if t.hi == nil || hi != nil && hi.Cmp(t.hi) < 0 {
			t.hi = hi
		}
	}
	return t
}

func (t *Term) isK() bool     { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.args[0]
	}
	return intern(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}

func flattenBool(op Op, in []*Term) []*Term {
	var out []*Term
	for _, t := range in {
		if t.op == op {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	return out
}

func dedupe(ts []*Term) []*Term {
	seen := make(map[*Term]bool, len(ts))
	out := ts[:0:0]
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func And(in ...*Term) *Term {
	ts := dedupe(flattenBool(OAnd, in))
	out := ts[:0:0]
	seen := map[*Term]bool{}
	for _, t := range ts {
		seen[t] = true
	}
	for _, t := range ts {
		if t == True {
			continue
		}
		if t == False {
			return False
		}
		if t.op == ONot && seen[t.args[0]] {
			return False
		}
		// and(a, or(a,..)) = a ; and(a, or(not a, b)) = and(a,b)
		if t.op == OOr {
			skip := false
			var rest []*Term
			changed := false
			for _, d := range t.args {
				if seen[d] {
					skip = true
					break
				}
				if seen[Not(d)] {
					changed = true
					continue
				}
				rest = append(rest, d)
			}
			if skip {
				continue
			}
			if changed {
				out = append(out, Or(rest...))
				continue
			}
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if t == False {
			return False
		}
		if t.op == OAnd || t == True {
			return And(out...)
		}
	}
	sortTerms(out)
	return intern(&Term{op: OAnd, sort: BoolS, args: out})
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func Or(in ...*Term) *Term {
	ts := dedupe(flattenBool(OOr, in))
	out := ts[:0:0]
	seen := map[*Term]bool{}
	for _, t := range ts {
		seen[t] = true
	}
	for _, t := range ts {
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		if t.op == ONot && seen[t.args[0]] {
			return True
		}
		if t.op == OAnd {
			skip := false
			var rest []*Term
			changed := false
			for _, d := range t.args {
				if seen[d] {
					skip = true
					break
				}
				if seen[Not(d)] {
					changed = true
					continue
				}
				rest = append(rest, d)
			}
			if skip {
				continue
			}
			if changed {
				out = append(out, And(rest...))
				continue
			}
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if t == True {
			return True
		}
		if t.op == OOr || t == False {
			return Or(out...)
		}
	}
	// factor: or(and(x,c), and(x, not c)) = x
	if len(out) == 2 && out[0].op == OAnd && out[1].op == OAnd {
		common, a, b := factor(out[0], out[1])
		if len(common) > 0 {
			r := Or(And(a...), And(b...))
			return And(append(append([]*Term{}, common...), r)...)
		}
	}
	sortTerms(out)
	return intern(&Term{op: OOr, sort: BoolS, args: out})
}

func conj(t *Term) []*Term {
	if t == True {
		return nil
	}
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func factor(x, y *Term) (common, a, b []*Term) {
	ys := map[*Term]bool{}
	for _, t := range conj(y) {
		ys[t] = true
	}
	cm := map[*Term]bool{}
	for _, t := range conj(x) {
		if ys[t] {
			common = append(common, t)
			cm[t] = true
		} else {
			a = append(a, t)
		}
	}
	for _, t := range conj(y) {
		if !cm[t] {
			b = append(b, t)
		}
	}
	return
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.sort.str, b.sort.str))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort.kind == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
		if a == Not(b) {
			return Eq(c, a)
		}
	}
	// nested same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, ite(d,x,y), y) = ite(c&d,x,y)
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	// ite over polys: pull shared structure k + ite
	if a.sort.kind == SInt {
		d := Sub(a, b)
		if d.isK() && false {
			return Add(b, Ite(c, d, IntK(0)))
		}
	}
	t := intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
	if a.sort.kind == SInt && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = bmax(a.hi, b.hi)
		}
	}
	return t
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s(%s) %s(%s)", show(a), a.sort.str, show(b), b.sort.str))
	}
	if a.isK() && b.isK() {
		return BoolK(a.k.Cmp(b.k) == 0)
	}
	switch a.sort.kind {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SInt:
		if a.isK() {
			a, b = b, a
		}
		if b.isK() && a.op == OIte {
			if r := eqIteK(a, b, 0); r != nil {
				return r
			}
		}
		p := Sub(a, b)
		if p.isK() {
			return BoolK(p.k.Sign() == 0)
		}
		if p.lo != nil && p.lo.Sign() > 0 || p.hi != nil && p.hi.Sign() < 0 {
			return False
		}
		// canonical
		pos, neg := splitPoly(p)
		if pos.id < neg.id {
			pos, neg = neg, pos
		}
		if pos == neg {
			return True
		}
		return intern(&Term{op: OEq, sort: BoolS, args: []*Term{pos, neg}})
	case SBV:
		if a.isK() {
			a, b = b, a
		}
		if b.isK() && a.op == OIte {
			if r := eqIteK(a, b, 0); r != nil {
				return r
			}
		}
		if b.isK() && a.op == OBV && a.name == "concat" {
			lw := a.args[1].sort.w
			lo := new(big.Int).Mod(b.k, new(big.Int).Lsh(bi1, uint(lw)))
			hi := new(big.Int).Rsh(b.k, uint(lw))
			return And(Eq(a.args[0], BVK(a.args[0].sort.w, hi)), Eq(a.args[1], BVK(lw, lo)))
		}
	}
	if a.id < b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

var eqIteMemo = map[[2]int]*Term{}

// eqIteK simplifies ite(c,x,y)==k when at least one branch decides.
func eqIteK(a, k *Term, depth int) *Term {
	key := [2]int{a.id, k.id}
	if r, ok := eqIteMemo[key]; ok {
		return r
	}
	r := eqIteK0(a, k, depth)
	eqIteMemo[key] = r
	return r
}

func eqIteK0(a, k *Term, depth int) *Term {
	if depth > 40 {
		return nil
	}
	var l, r *Term
	br := func(x *Term) *Term {
		if x.isK() {
			return BoolK(x.k.Cmp(k.k) == 0)
		}
		if x.op == OIte {
			return eqIteK(x, k, depth+1)
		}
		if x.sort.kind == SInt {
			if x.lo != nil && x.lo.Cmp(k.k) > 0 || x.hi != nil && x.hi.Cmp(k.k) < 0 {
				return False
			}
		}
		return nil
	}
	l, r = br(a.args[1]), br(a.args[2])
	if l == nil && r == nil {
		return nil
	}
	if l == nil {
		l = Eq(a.args[1], k)
	}
	if r == nil {
		r = Eq(a.args[2], k)
	}
	return Ite(a.args[0], l, r)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------------------------------------------------------------- integers

// polynomial helpers: a poly is map from monomial term to coef + const
type poly struct {
	k  *big.Int
	ms map[*Term]*big.Int
}

func toPoly(t *Term) poly {
	p := poly{k: bi0, ms: map[*Term]*big.Int{}}
	switch t.op {
	case OConst:
		p.k = t.k
	case OPoly:
		p.k = t.k
		for i, a := range t.args {
			p.ms[a] = t.coefs[i]
		}
	default:
		p.ms[t] = bi1
	}
	return p
}

func fromPoly(p poly) *Term {
	var ms []*Term
	for m, c := range p.ms {
		if c.Sign() != 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return IntB(p.k)
	}
	sortTerms(ms)
	if len(ms) == 1 && p.k.Sign() == 0 && p.ms[ms[0]].Cmp(bi1) == 0 {
		return ms[0]
	}
	cs := make([]*big.Int, len(ms))
	for i, m := range ms {
		cs[i] = p.ms[m]
	}
	t := intern(&Term{op: OPoly, sort: IntS, args: ms, coefs: cs, k: p.k})
	if t.lo == nil && t.hi == nil {
		lo, hi := new(big.Int).Set(p.k), new(big.Int).Set(p.k)
		okl, okh := true, true
		for i, m := range ms {
			l, h := m.lo, m.hi
			if cs[i].Sign() < 0 {
				l, h = h, l
			}
			if okl && l != nil {
				lo.Add(lo, new(big.Int).Mul(l, cs[i]))
			} else {
				okl = false
			}
			if okh && h != nil {
				hi.Add(hi, new(big.Int).Mul(h, cs[i]))
			} else {
				okh = false
			}
		}
		if okl {
			t.lo = lo
		}
		if okh {
			t.hi = hi
		}
	}
	return t
}

func polyAdd(a, b poly, cb *big.Int) poly {
	r := poly{k: new(big.Int).Add(a.k, new(big.Int).Mul(b.k, cb)), ms: make(map[*Term]*big.Int, len(a.ms)+len(b.ms))}
	for m, c := range a.ms {
		r.ms[m] = c
	}
	for m, c := range b.ms {
		x := new(big.Int).Mul(c, cb)
		if o := r.ms[m]; o != nil {
			x.Add(x, o)
		}
		r.ms[m] = x
	}
	return r
}

func Add(a, b *Term) *Term {
	if a.isK() && b.isK() {
		return IntB(new(big.Int).Add(a.k, b.k))
	}
	return fromPoly(polyAdd(toPoly(a), toPoly(b), bi1))
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntK(0)
	}
	return fromPoly(polyAdd(toPoly(a), toPoly(b), big.NewInt(-1)))
}

func Neg(a *Term) *Term { return Sub(IntK(0), a) }

func AddK(a *Term, n int64) *Term { return Add(a, IntK(n)) }

func atomsOf(m *Term) []*Term {
	if m.op == OMul {
		return m.args
	}
	return []*Term{m}
}

func mulMono(a, b *Term) *Term {
	at := append(append([]*Term{}, atomsOf(a)...), atomsOf(b)...)
	sortTerms(at)
	t := intern(&Term{op: OMul, sort: IntS, args: at})
	if t.lo == nil && t.hi == nil {
		allpos := true
		lo, hi := bi1, bi1
		for _, x := range at {
			if x.lo == nil || x.lo.Sign() < 0 {
				allpos = false
				break
			}
			lo = new(big.Int).Mul(lo, x.lo)
			if hi != nil && x.hi != nil {
				hi = new(big.Int).Mul(hi, x.hi)
			} else {
				hi = nil
			}
		}
		if allpos {
			t.lo, t.hi = lo, hi
		} else if len(at) == 2 && at[0] == at[1] {
			t.lo = bi0
		} else if len(at) == 2 && at[0].lo != nil && at[0].hi != nil && at[1].lo != nil && at[1].hi != nil {
			var mn, mx *big.Int
			for _, p := range []*big.Int{at[0].lo, at[0].hi} {
				for _, q := range []*big.Int{at[1].lo, at[1].hi} {
					v := new(big.Int).Mul(p, q)
					if mn == nil || v.Cmp(mn) < 0 {
						mn = v
					}
					if mx == nil || v.Cmp(mx) > 0 {
						mx = v
					}
				}
			}
			t.lo, t.hi = mn, mx
		}
	}
	return t
}

func Mul(a, b *Term) *Term {
	if a.isK() && b.isK() {
		return IntB(new(big.Int).Mul(a.k, b.k))
	}
	// distribute over ite with constants leaves would explode; keep as atoms
	pa, pb := toPoly(a), toPoly(b)
	r := poly{k: new(big.Int).Mul(pa.k, pb.k), ms: map[*Term]*big.Int{}}
	addm := func(m *Term, c *big.Int) {
		if o := r.ms[m]; o != nil {
			c = new(big.Int).Add(c, o)
		}
		r.ms[m] = c
	}
	for m, c := range pa.ms {
		if pb.k.Sign() != 0 {
			addm(m, new(big.Int).Mul(c, pb.k))
		}
	}
	for m, c := range pb.ms {
		if pa.k.Sign() != 0 {
			addm(m, new(big.Int).Mul(c, pa.k))
		}
	}
	// deterministic order
	ka, kb := keysOf(pa.ms), keysOf(pb.ms)
	for _, ma := range ka {
		for _, mb := range kb {
			addm(mulMono(ma, mb), new(big.Int).Mul(pa.ms[ma], pb.ms[mb]))
		}
	}
	return fromPoly(r)
}

func keysOf(m map[*Term]*big.Int) []*Term {
	var ks []*Term
	for t := range m {
		ks = append(ks, t)
	}
	sortTerms(ks)
	return ks
}

// splitPoly: p = pos - neg with nonnegative coefs.
func splitPoly(p *Term) (pos, neg *Term) {
	q := toPoly(p)
	a := poly{k: bi0, ms: map[*Term]*big.Int{}}
	b := poly{k: bi0, ms: map[*Term]*big.Int{}}
	// normalise by gcd of coefs and const
	g := new(big.Int).Abs(q.k)
	for _, c := range q.ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Sign() == 0 {
		g = bi1
	}
	for m, c := range q.ms {
		c = new(big.Int).Quo(c, g)
		if c.Sign() > 0 {
			a.ms[m] = c
		} else if c.Sign() < 0 {
			b.ms[m] = new(big.Int).Neg(c)
		}
	}
	k := new(big.Int).Quo(q.k, g)
	if k.Sign() > 0 {
		a.k = k
	} else {
		b.k = new(big.Int).Neg(k)
	}
	return fromPoly(a), fromPoly(b)
}

func Le(a, b *Term) *Term {
	if a.sort.kind != SInt || b.sort.kind != SInt {
		panic("Le on non-int " + show(a) + " " + show(b))
	}
	p := Sub(a, b) // p <= 0
	if p.isK() {
		return BoolK(p.k.Sign() <= 0)
	}
	if p.hi != nil && p.hi.Sign() <= 0 {
		return True
	}
	if p.lo != nil && p.lo.Sign() > 0 {
		return False
	}
	pos, neg := splitPoly(p)
	return intern(&Term{op: OLe, sort: BoolS, args: []*Term{pos, neg}})
}

func Lt(a, b *Term) *Term { return Le(AddK(a, 1), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// DivE is SMT-LIB Euclidean division.
func DivE(a, b *Term) *Term {
	if b.isK() && b.k.Sign() != 0 {
		if a.isK() {
			q, _ := new(big.Int).DivMod(a.k, b.k, new(big.Int))
			return IntB(q)
		}
		if b.k.Cmp(bi1) == 0 {
			return a
		}
		if b.k.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
			return IntK(0)
		}
		if b.k.Sign() > 0 {
			switch a.op {
			case ODiv:
				if d := a.args[1]; d.isK() && d.k.Sign() > 0 {
					return DivE(a.args[0], IntB(new(big.Int).Mul(d.k, b.k)))
				}
			case OMod:
				if m := a.args[1]; m.isK() && m.k.Sign() > 0 {
					if q, r := new(big.Int).DivMod(m.k, b.k, new(big.Int)); r.Sign() == 0 {
						return ModE(DivE(a.args[0], b), IntB(q))
					}
				}
			case OIte:
				if a.args[1].isK() || a.args[2].isK() {
					return Ite(a.args[0], DivE(a.args[1], b), DivE(a.args[2], b))
				}
			}
		}
		// exact division of polynomials
		p := toPoly(a)
		ok := new(big.Int).Mod(p.k, b.k).Sign() == 0
		for _, c := range p.ms {
			if new(big.Int).Mod(c, b.k).Sign() != 0 {
				ok = false
			}
		}
		if ok {
			r := poly{k: new(big.Int).Quo(p.k, b.k), ms: map[*Term]*big.Int{}}
			for m, c := range p.ms {
				r.ms[m] = new(big.Int).Quo(c, b.k)
			}
			return fromPoly(r)
		}
	}
	t := intern(&Term{op: ODiv, sort: IntS, args: []*Term{a, b}})
	if t.lo == nil && t.hi == nil && b.isK() && b.k.Sign() > 0 {
		if a.lo != nil {
			q, _ := new(big.Int).DivMod(a.lo, b.k, new(big.Int))
			t.lo = q
		}
		if a.hi != nil {
			q, _ := new(big.Int).DivMod(a.hi, b.k, new(big.Int))
			t.hi = q
		}
	}
	return t
}

func ModE(a, b *Term) *Term {
	if b.isK() && b.k.Sign() != 0 {
		if a.isK() {
			_, m := new(big.Int).DivMod(a.k, b.k, new(big.Int))
			return IntB(m)
		}
		if b.k.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
			return a
		}
		if b.k.Sign() > 0 {
			switch a.op {
			case OMod:
				if m := a.args[1]; m.isK() && m.k.Sign() > 0 && new(big.Int).Mod(m.k, b.k).Sign() == 0 {
					return ModE(a.args[0], b)
				}
			case OIte:
				if a.args[1].isK() || a.args[2].isK() {
					return Ite(a.args[0], ModE(a.args[1], b), ModE(a.args[2], b))
				}
			}
		}
		// reduce poly coefs mod b
		p := toPoly(a)
		r := poly{k: new(big.Int).Mod(p.k, b.k), ms: map[*Term]*big.Int{}}
		for m, c := range p.ms {
			r.ms[m] = c
			if new(big.Int).Mod(c, b.k).Sign() == 0 {
				delete(r.ms, m)
			}
		}
		a2 := fromPoly(r)
		if a2 != a {
			return ModE(a2, b)
		}
	}
	t := intern(&Term{op: OMod, sort: IntS, args: []*Term{a, b}})
	if t.lo == nil && b.isK() && b.k.Sign() > 0 {
		t.lo = bi0
		t.hi = new(big.Int).Sub(b.k, bi1)
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
			t.hi = a.hi
		}
	}
	return t
}

// ---------------------------------------------------------------- arrays

var selMemo = map[[2]int]*Term{}

func Select(a, i *Term) *Term {
	key := [2]int{a.id, i.id}
	if r := selMemo[key]; r != nil {
		return r
	}
	r := select0(a, i)
	selMemo[key] = r
	return r
}

func storeChain(a *Term) int {
	n := 0
	for a.op == OStore && n < 100 {
		n++
		a = a.args[0]
	}
	return n
}

func select0(a, i *Term) *Term {
	if a.sort.kind != SArray {
		panic("select of non-array " + show(a))
	}
	if a.sort.idx != i.sort {
		panic(fmt.Sprintf("select index sort: %s vs %s", a.sort.str, i.sort.str))
	}
	if a.op == OIte {
		if t := strTables[a]; t != nil {
			return t.at(a, i)
		}
	}
	if a.op == OStore && !i.isK() {
		if t := tableOf(a); t != nil {
			return piecewise(i, t.keys, t.vals, Select(t.base, i))
		}
	}
	for {
		if a.op == OStore {
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False {
				a = a.args[0]
				continue
			}
			if storeChain(a) < 40 {
				return Ite(e, a.args[2], Select(a.args[0], i))
			}
		}
		break
	}
	if a.op == OCopy {
		// copy(dst, doff, src, soff, n)
		d, doff, src, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := And(ileq(doff, i), iltq(i, iadd(doff, n)))
		return Ite(in, Select(src, iadd(isub(i, doff), soff)), Select(d, i))
	}
	if a.op == OConstArr {
		return a.args[0]
	}
	if a.op == OIte {
		// push select into ite when both sides simplify cheaply (only for shallow)
		x := Select(a.args[1], i)
		y := Select(a.args[2], i)
		return Ite(a.args[0], x, y)
	}
	t := intern(&Term{op: OSelect, sort: a.sort.elem, args: []*Term{a, i}})
	return t
}

func Store(a, i, v *Term) *Term {
	if a.sort.elem != v.sort {
		panic(fmt.Sprintf("store elem sort %s vs %s", a.sort.str, v.sort.str))
	}
	if a.sort.idx != i.sort {
		panic(fmt.Sprintf("store idx sort %s vs %s", a.sort.str, i.sort.str))
	}
	if a.op == OStore && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

// index arithmetic on either index sort
func iadd(a, b *Term) *Term {
	if a.sort.kind == SBV {
		return BVOp("bvadd", a, b)
	}
	return Add(a, b)
}
func isub(a, b *Term) *Term {
	if a.sort.kind == SBV {
		return BVOp("bvsub", a, b)
	}
	return Sub(a, b)
}
func ileq(a, b *Term) *Term {
	if a.sort.kind == SBV {
		return BVCmp("bvsle", a, b)
	}
	return Le(a, b)
}
func iltq(a, b *Term) *Term {
	if a.sort.kind == SBV {
		return BVCmp("bvslt", a, b)
	}
	return Lt(a, b)
}

func CopyArr(d, doff, src, soff, n *Term) *Term {
	if n.isK() && n.k.Sign() == 0 {
		return d
	}
	if n.isK() && n.k.IsInt64() && n.k.Int64() <= 8 {
		r := d
		for j := int64(0); j < n.k.Int64(); j++ {
			r = Store(r, iadd(doff, KOf(doff.sort, j)), Select(src, iadd(soff, KOf(soff.sort, j))))
		}
		return r
	}
	return intern(&Term{op: OCopy, sort: d.sort, args: []*Term{d, doff, src, soff, n}})
}

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

// ---------------------------------------------------------------- UF, quantifiers

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{op: OApp, sort: s, name: sanitize(name), args: args})
}

func NewBound(prefix string, s *Sort) *Term {
	freshN++
	return intern(&Term{op: OBound, sort: s, name: fmt.Sprintf("%s?%d", sanitize(prefix), freshN)})
}

func Forall(b, body *Term) *Term {
	if len(body.fb) == 0 || !hasFB(body, b) {
		return body
	}
	return intern(&Term{op: OForall, sort: BoolS, args: []*Term{b, body}})
}

func hasFB(t, b *Term) bool {
	for _, x := range t.fb {
		if x == b {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- bit-vectors

func bvMask(w int) *big.Int {
	m := new(big.Int).Lsh(bi1, uint(w))
	return m.Sub(m, bi1)
}

func toSigned(k *big.Int, w int) *big.Int {
	if k.Bit(w-1) == 1 {
		return new(big.Int).Sub(k, new(big.Int).Lsh(bi1, uint(w)))
	}
	return k
}

func bvraw(name string, s *Sort, i1, i2 int, args ...*Term) *Term {
	return intern(&Term{op: OBV, sort: s, name: name, i1: i1, i2: i2, args: args})
}

func BVOp(name string, a, b *Term) *Term {
	if a.sort != b.sort || a.sort.kind != SBV {
		panic(fmt.Sprintf("bvop %s sorts %s %s", name, a.sort.str, b.sort.str))
	}
	w := a.sort.w
	if a.isK() && b.isK() {
		x, y := a.k, b.k
		r := new(big.Int)
		switch name {
		case "bvadd":
			r.Add(x, y)
		case "bvsub":
			r.Sub(x, y)
		case "bvmul":
			r.Mul(x, y)
		case "bvand":
			r.And(x, y)
		case "bvor":
			r.Or(x, y)
		case "bvxor":
			r.Xor(x, y)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				r.SetInt64(0)
			} else {
				r.Lsh(x, uint(y.Uint64()))
			}
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				r.SetInt64(0)
			} else {
				r.Rsh(x, uint(y.Uint64()))
			}
		case "bvashr":
			n := uint(w)
			if y.Cmp(big.NewInt(int64(w))) < 0 {
				n = uint(y.Uint64())
			}
			r.Rsh(toSigned(x, w), n)
		case "bvudiv":
			if y.Sign() == 0 {
				return bvraw(name, a.sort, 0, 0, a, b)
			}
			r.Quo(x, y)
		case "bvurem":
			if y.Sign() == 0 {
				return bvraw(name, a.sort, 0, 0, a, b)
			}
			r.Rem(x, y)
		case "bvsdiv":
			if y.Sign() == 0 {
				return bvraw(name, a.sort, 0, 0, a, b)
			}
			r.Quo(toSigned(x, w), toSigned(y, w))
		case "bvsrem":
			if y.Sign() == 0 {
				return bvraw(name, a.sort, 0, 0, a, b)
			}
			r.Rem(toSigned(x, w), toSigned(y, w))
		default:
			panic(name)
		}
		return BVK(w, r)
	}
	zero := func(t *Term) bool { return t.isK() && t.k.Sign() == 0 }
	ones := func(t *Term) bool { return t.isK() && t.k.Cmp(bvMask(w)) == 0 }
	switch name {
	case "bvadd", "bvor", "bvxor":
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if name == "bvor" {
			if a == b || ones(a) {
				return a
			}
			if ones(b) {
				return b
			}
		}
		if name == "bvxor" && a == b {
			return BVK(w, bi0)
		}
		if name == "bvadd" {
			// (x + k1) + k2
			if a.isK() {
				a, b = b, a
			}
			if b.isK() && a.op == OBV && a.name == "bvadd" && a.args[1].isK() {
				return BVOp("bvadd", a.args[0], BVK(w, new(big.Int).Add(a.args[1].k, b.k)))
			}
			if b.isK() {
				return bvraw(name, a.sort, 0, 0, a, b)
			}
		}
	case "bvsub":
		if zero(b) {
			return a
		}
		if a == b {
			return BVK(w, bi0)
		}
		if b.isK() {
			return BVOp("bvadd", a, BVK(w, new(big.Int).Neg(b.k)))
		}
	case "bvand":
		if a == b || ones(b) || zero(a) {
			return a
		}
		if ones(a) || zero(b) {
			return b
		}
	case "bvmul":
		if zero(a) {
			return a
		}
		if zero(b) {
			return b
		}
		if a.isK() && a.k.Cmp(bi1) == 0 {
			return b
		}
		if b.isK() && b.k.Cmp(bi1) == 0 {
			return a
		}
	case "bvshl", "bvlshr", "bvashr":
		if zero(b) {
			return a
		}
		if b.isK() && b.k.IsInt64() && b.k.Int64() < int64(w) {
			n := int(b.k.Int64())
			switch name {
			case "bvlshr":
				return ZExt(Extract(a, w-1, n), w)
			case "bvshl":
				return Concat(Extract(a, w-1-n, 0), BVK(n, bi0))
			}
		} else if b.isK() && name != "bvashr" {
			return BVK(w, bi0)
		}
	}
	switch name {
	case "bvand", "bvor", "bvxor", "bvmul":
		if a.id > b.id {
			a, b = b, a
		}
	}
	return bvraw(name, a.sort, 0, 0, a, b)
}

func BVNot(a *Term) *Term {
	if a.isK() {
		return BVK(a.sort.w, new(big.Int).Xor(a.k, bvMask(a.sort.w)))
	}
	if a.op == OBV && a.name == "bvnot" {
		return a.args[0]
	}
	return bvraw("bvnot", a.sort, 0, 0, a)
}

func BVNeg(a *Term) *Term { return BVOp("bvsub", BVK(a.sort.w, bi0), a) }

func Extract(a *Term, hi, lo int) *Term {
	w := a.sort.w
	if lo == 0 && hi == w-1 {
		return a
	}
	if a.isK() {
		r := new(big.Int).Rsh(a.k, uint(lo))
		return BVK(hi-lo+1, r)
	}
	if a.op == OBV {
		switch a.name {
		case "extract":
			return Extract(a.args[0], hi+a.i2, lo+a.i2)
		case "concat":
			lw := a.args[1].sort.w
			if hi < lw {
				return Extract(a.args[1], hi, lo)
			}
			if lo >= lw {
				return Extract(a.args[0], hi-lw, lo-lw)
			}
			return Concat(Extract(a.args[0], hi-lw, 0), Extract(a.args[1], lw-1, lo))
		case "bvand", "bvor", "bvxor":
			return BVOp(a.name, Extract(a.args[0], hi, lo), Extract(a.args[1], hi, lo))
		case "bvnot":
			return BVNot(Extract(a.args[0], hi, lo))
		}
	}
	if a.op == OIte && (a.args[1].isK() || a.args[2].isK()) {
		return Ite(a.args[0], Extract(a.args[1], hi, lo), Extract(a.args[2], hi, lo))
	}
	return bvraw("extract", BVS(hi-lo+1), hi, lo, a)
}

func Concat(a, b *Term) *Term {
	w := a.sort.w + b.sort.w
	if a.isK() && b.isK() {
		r := new(big.Int).Lsh(a.k, uint(b.sort.w))
		r.Or(r, b.k)
		return BVK(w, r)
	}
	// merge adjacent extracts
	if a.op == OBV && b.op == OBV && a.name == "extract" && b.name == "extract" && a.args[0] == b.args[0] && a.i2 == b.i1+1 {
		return Extract(a.args[0], a.i1, b.i2)
	}
	// right-assoc
	if a.op == OBV && a.name == "concat" {
		return Concat(a.args[0], Concat(a.args[1], b))
	}
	if b.op == OBV && b.name == "concat" {
		h := b.args[0]
		if a.isK() && h.isK() || a.op == OBV && h.op == OBV && a.name == "extract" && h.name == "extract" && a.args[0] == h.args[0] && a.i2 == h.i1+1 {
			return Concat(Concat(a, h), b.args[1])
		}
	}
	return bvraw("concat", BVS(w), 0, 0, a, b)
}

func ZExt(a *Term, w int) *Term {
	if a.sort.w == w {
		return a
	}
	if a.sort.w > w {
		return Extract(a, w-1, 0)
	}
	if a.isK() {
		return BVK(w, a.k)
	}
	return Concat(BVK(w-a.sort.w, bi0), a)
}

func SExt(a *Term, w int) *Term {
	if a.sort.w == w {
		return a
	}
	if a.sort.w > w {
		return Extract(a, w-1, 0)
	}
	if a.isK() {
		return BVK(w, toSigned(a.k, a.sort.w))
	}
	// known non-negative: leading zero bits
	if a.op == OBV && a.name == "concat" && a.args[0].isK() && a.args[0].k.Bit(a.args[0].sort.w-1) == 0 {
		return ZExt(a, w)
	}
	return bvraw("sign_extend", BVS(w), w-a.sort.w, 0, a)
}

func BVCmp(name string, a, b *Term) *Term {
	// name: bvult bvule bvslt bvsle
	if a.sort != b.sort {
		panic("bvcmp sorts " + a.sort.str + " " + b.sort.str)
	}
	if a.isK() && b.isK() {
		x, y := a.k, b.k
		if name[2] == 's' {
			x, y = toSigned(x, a.sort.w), toSigned(y, a.sort.w)
		}
		c := x.Cmp(y)
		if strings.HasSuffix(name, "t") {
			return BoolK(c < 0)
		}
		return BoolK(c <= 0)
	}
	if a == b {
		return BoolK(strings.HasSuffix(name, "e"))
	}
	// bounds by leading zeros
	ua, ub := bvUpper(a), bvUpper(b)
	w := a.sort.w
	half := new(big.Int).Lsh(bi1, uint(w-1))
	signedOK := name[2] == 'u' || ua.Cmp(half) < 0 && ub.Cmp(half) < 0
	if b.isK() && signedOK && b.k.Cmp(half) < 0 || b.isK() && name[2] == 'u' {
		c := ua.Cmp(b.k)
		if c < 0 || c == 0 && strings.HasSuffix(name, "e") {
			return True
		}
	}
	if a.isK() && signedOK {
		c := a.k.Cmp(ub)
		if c > 0 || c == 0 && strings.HasSuffix(name, "t") {
			return False
		}
		if a.k.Sign() == 0 && strings.HasSuffix(name, "e") {
			return True
		}
	}
	if b.isK() && b.k.Sign() == 0 && signedOK && strings.HasSuffix(name, "t") {
		return False
	}
	return intern(&Term{op: OBV, sort: BoolS, name: name, args: []*Term{a, b}})
}

// bvUpper is an unsigned upper bound.
func bvUpper(a *Term) *big.Int {
	if a.isK() {
		return a.k
	}
	if a.op == OBV && a.name == "concat" && a.args[0].isK() {
		r := new(big.Int).Lsh(a.args[0].k, uint(a.args[1].sort.w))
		return r.Add(r, bvMask(a.args[1].sort.w))
	}
	if a.op == OIte {
		return bmax(bvUpper(a.args[1]), bvUpper(a.args[2]))
	}
	return bvMask(a.sort.w)
}

func BV2Nat(a *Term) *Term {
	if a.isK() {
		return IntB(a.k)
	}
	if a.op == OIte {
		return Ite(a.args[0], BV2Nat(a.args[1]), BV2Nat(a.args[2]))
	}
	if a.op == OBV && a.name == "concat" && a.args[0].isK() && a.args[0].k.Sign() == 0 {
		return BV2Nat(a.args[1])
	}
	if a.op == OInt2BV {
		return ModE(a.args[0], IntB(new(big.Int).Lsh(bi1, uint(a.sort.w))))
	}
	t := intern(&Term{op: OBV2Nat, sort: IntS, args: []*Term{a}})
	t.lo = bi0
	t.hi = bvMask(a.sort.w)
	return t
}

func Int2BV(a *Term, w int) *Term {
	if a.isK() {
		return BVK(w, a.k)
	}
	if a.op == OIte {
		return Ite(a.args[0], Int2BV(a.args[1], w), Int2BV(a.args[2], w))
	}
	if a.op == OBV2Nat {
		return ZExt(a.args[0], w)
	}
	return intern(&Term{op: OInt2BV, sort: BVS(w), i1: w, args: []*Term{a}})
}

// ---------------------------------------------------------------- rebuild / subst

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OEq:
		return Eq(args[0], args[1])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OPoly:
		r := IntB(t.k)
		for i, a := range args {
			r = Add(r, Mul(IntB(t.coefs[i]), a))
		}
		return r
	case OMul:
		r := args[0]
		for _, a := range args[1:] {
			r = Mul(r, a)
		}
		return r
	case OLe:
		return Le(args[0], args[1])
	case ODiv:
		return DivE(args[0], args[1])
	case OMod:
		return ModE(args[0], args[1])
	case OSelect:
		r := Select(args[0], args[1])
		if r.op == OSelect && r.sort.kind == SInt {
			withBounds(r, t.lo, t.hi)
		}
		return r
	case OStore:
		return Store(args[0], args[1], args[2])
	case OConstArr:
		return ConstArr(t.sort, args[0])
	case OCopy:
		return CopyArr(args[0], args[1], args[2], args[3], args[4])
	case OApp:
		r := App(t.name, t.sort, args...)
		return withBounds(r, t.lo, t.hi)
	case OForall:
		return Forall(args[0], args[1])
	case OBV:
		switch t.name {
		case "extract":
			return Extract(args[0], t.i1, t.i2)
		case "concat":
			return Concat(args[0], args[1])
		case "sign_extend":
			return SExt(args[0], t.sort.w)
		case "bvnot":
			return BVNot(args[0])
		case "bvult", "bvule", "bvslt", "bvsle":
			return BVCmp(t.name, args[0], args[1])
		}
		return BVOp(t.name, args[0], args[1])
	case OBV2Nat:
		return BV2Nat(args[0])
	case OInt2BV:
		return Int2BV(args[0], t.i1)
	}
	panic("rebuild op")
}

func Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// SubstB substitutes one bound variable.
func SubstB(t, b, v *Term) *Term {
	return substB(t, b, v, map[*Term]*Term{})
}

func substB(t, b, v *Term, memo map[*Term]*Term) *Term {
	if t == b {
		return v
	}
	if !hasFB(t, b) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substB(a, b, v, memo)
	}
	r := rebuild(t, args)
	memo[t] = r
	return r
}

// ---------------------------------------------------------------- printing

func bigSMT(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func show(t *Term) string {
	s := smtInline(t, nil, 0)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func constSMT(t *Term) string {
	switch t.sort.kind {
	case SBool:
		if t == True {
			return "true"
		}
		return "false"
	case SInt:
		return bigSMT(t.k)
	case SBV:
		return fmt.Sprintf("(_ bv%s %d)", t.k.String(), t.sort.w)
	}
	panic("const sort")
}

func symSMT(name string) string {
	return "|" + name + "|"
}

// smtInline prints t, using names for terms found in defs.
func smtInline(t *Term, defs map[*Term]string, depth int) string {
	if defs != nil && depth > 0 {
		if n, ok := defs[t]; ok {
			return n
		}
	}
	if defs == nil && depth > 14 {
		return "…"
	}
	d := depth + 1
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar, OBound:
		return symSMT(t.name)
	case OPoly:
		var parts []string
		for i, a := range t.args {
			s := smtInline(a, defs, d)
			if t.coefs[i].Cmp(bi1) == 0 {
				parts = append(parts, s)
			} else {
				parts = append(parts, "(* "+bigSMT(t.coefs[i])+" "+s+")")
			}
		}
		if t.k.Sign() != 0 {
			parts = append(parts, bigSMT(t.k))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OForall:
		return fmt.Sprintf("(forall ((%s %s)) %s)", symSMT(t.args[0].name), t.args[0].sort.str, smtInline(t.args[1], defs, d))
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = smtInline(a, defs, d)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case ONot:
		return "(not " + j + ")"
	case OAnd:
		return "(and " + j + ")"
	case OOr:
		return "(or " + j + ")"
	case OEq:
		return "(= " + j + ")"
	case OIte:
		return "(ite " + j + ")"
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = "(vmul! " + r + " " + a + ")"
		}
		return r
	case OLe:
		return "(<= " + j + ")"
	case ODiv:
		if !t.args[1].isK() {
			return "(vdiv! " + j + ")"
		}
		return "(div " + j + ")"
	case OMod:
		if !t.args[1].isK() {
			return "(vmod! " + j + ")"
		}
		return "(mod " + j + ")"
	case OSelect:
		return "(select " + j + ")"
	case OStore:
		return "(store " + j + ")"
	case OConstArr:
		return "((as const " + t.sort.str + ") " + j + ")"
	case OApp:
		if len(t.args) == 0 {
			return symSMT(t.name)
		}
		return "(" + symSMT(t.name) + " " + j + ")"
	case OBV:
		switch t.name {
		case "extract":
			return fmt.Sprintf("((_ extract %d %d) %s)", t.i1, t.i2, j)
		case "sign_extend":
			return fmt.Sprintf("((_ sign_extend %d) %s)", t.i1, j)
		}
		return "(" + t.name + " " + j + ")"
	case OBV2Nat:
		return "(bv2nat " + j + ")"
	case OInt2BV:
		return fmt.Sprintf("((_ int2bv %d) %s)", t.i1, j)
	case OCopy:
		return "(|arraycopy| " + j + ")"
	}
	panic("print op")
}
