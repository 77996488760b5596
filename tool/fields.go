package main

import (
	"fmt"
	"math/big"
	"sort"
)

// Bit fields. A term x that occurs under several divisions and remainders by
// powers of two is split once at all the cut points: x = sum f_j * 2^c_j with
// 0 <= f_j < 2^(c_{j+1}-c_j). Each slice of x becomes a linear sum of fields.
// The fields are determined by x, so the rewriting preserves satisfiability.

func pow2(k *Term) (uint, bool) {
	if !k.isK() || k.k.Sign() <= 0 {
		return 0, false
	}
	n := k.k.BitLen() - 1
	if new(big.Int).Lsh(bi1, uint(n)).Cmp(k.k) != 0 || n == 0 || n > 80 {
		return 0, false
	}
	return uint(n), true
}

// slice recognises x div 2^a mod 2^b (b = 0: no mod).
func bitSlice(t *Term) (x *Term, a, b uint, ok bool) {
	switch t.op {
	case OMod:
		n, p := pow2(t.args[1])
		if !p {
			return nil, 0, 0, false
		}
		if t.args[0].op == ODiv {
			if m, p := pow2(t.args[0].args[1]); p {
				return t.args[0].args[0], m, n, true
			}
		}
		return t.args[0], 0, n, true
	case ODiv:
		n, p := pow2(t.args[1])
		if !p {
			return nil, 0, 0, false
		}
		return t.args[0], n, 0, true
	}
	return nil, 0, 0, false
}

type fields struct {
	at []uint
	f  []*Term
}

var cutMemo = map[*Term]map[uint]bool{}
var fieldMemo = map[string]*fields{}
var factorMemo = map[*Term]*Term{}

func bitFields(ts, want []*Term) ([]*Term, []*Term) {
	cuts := map[*Term]map[uint]bool{}
	var bases []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.fb) == 0 {
			if x, a, b, ok := bitSlice(t); ok {
				if cuts[x] == nil {
					cuts[x] = map[uint]bool{}
					bases = append(bases, x)
				}
				if a > 0 {
					cuts[x][a] = true
				}
				if b > 0 {
					cuts[x][a+b] = true
				}
				walk(x)
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	fs := map[*Term]*fields{}
	var extra []*Term
	for _, x := range bases {
		if len(cuts[x]) < 2 {
			continue
		}
		if cutMemo[x] == nil {
			cutMemo[x] = map[uint]bool{}
		}
		for c := range cuts[x] {
			cutMemo[x][c] = true
		}
		for c := range cutMemo[x] {
			cuts[x][c] = true
		}
		f := &fields{at: []uint{0}}
		for c := range cuts[x] {
			f.at = append(f.at, c)
		}
		sort.Slice(f.at, func(i, j int) bool { return f.at[i] < f.at[j] })
		key := fmt.Sprint(x.id, f.at)
		if fieldMemo[key] != nil {
			f = fieldMemo[key]
		}
		for i, c := range f.at {
			if fieldMemo[key] != nil {
				break
			}
			v := Fresh("bits", IntS)
			var lo, hi *big.Int
			if i+1 < len(f.at) {
				lo = bi0
				hi = new(big.Int).Sub(new(big.Int).Lsh(bi1, f.at[i+1]-c), bi1)
			} else {
				m := new(big.Int).Lsh(bi1, c)
				if x.lo != nil {
					lo, _ = new(big.Int).DivMod(x.lo, m, new(big.Int))
				}
				if x.hi != nil {
					hi, _ = new(big.Int).DivMod(x.hi, m, new(big.Int))
				}
			}
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				v = IntB(lo)
			} else if lo == bi0 && hi.Cmp(bi1) == 0 {
				v = Ite(Fresh("bit", BoolS), IntK(1), IntK(0))
			} else {
				v = withBounds(v, lo, hi)
			}
			f.f = append(f.f, v)
		}
		fs[x] = f
		fieldMemo[key] = f
		if x.op == OVar {
			s := IntK(0)
			for i, c := range f.at {
				s = Add(s, Mul(IntB(new(big.Int).Lsh(bi1, c)), f.f[i]))
			}
			if x.lo != nil {
				extra = append(extra, Le(IntB(x.lo), s))
			}
			if x.hi != nil {
				extra = append(extra, Le(s, IntB(x.hi)))
			}
		}
	}
	if len(fs) == 0 {
		return ts, want
	}
	sumOf := func(f *fields) *Term {
		sum := IntK(0)
		for i, c := range f.at {
			sum = Add(sum, Mul(IntB(new(big.Int).Lsh(bi1, c)), f.f[i]))
		}
		return sum
	}
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if t.op == OVar && fs[t] != nil {
			return sumOf(fs[t])
		}
		if len(t.args) == 0 {
			return t
		}
		if len(t.fb) == 0 {
			if x, a, b, ok := bitSlice(t); ok && fs[x] != nil {
				f := fs[x]
				sum := IntK(0)
				for i, c := range f.at {
					if c >= a && (b == 0 || c < a+b) {
						sum = Add(sum, Mul(IntB(new(big.Int).Lsh(bi1, c-a)), f.f[i]))
					}
				}
				memo[t] = sum
				return sum
			}
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rw(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	out := extra
	for _, t := range ts {
		out = append(out, rw(t))
	}
	for _, x := range bases {
		if f := fs[x]; f != nil && x.op != OVar {
			y := x
			if len(x.args) > 0 {
				args := make([]*Term, len(x.args))
				for i, a := range x.args {
					args[i] = rw(a)
				}
				y = rebuild(x, args)
			}
			out = append(out, Eq(y, sumOf(f)))
		}
	}
	w2 := make([]*Term, len(want))
	for i, w := range want {
		w2[i] = rw(w)
	}
	return out, w2
}

// factorItes pulls the common part out of integer conditionals so that equal
// sums of conditionals become syntactically equal.
func factorItes(ts []*Term) []*Term {
	memo := factorMemo
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rw(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		if r.op == OIte {
			r = underCond(r)
		}
		if r.op == OIte && r.sort.kind == SInt {
			r = factorIte(r)
		}
		if r.op == OPoly {
			r = scaleItes(r)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = rw(t)
	}
	return out
}

func factorIte(t *Term) *Term {
	pa, pb := toPoly(t.args[1]), toPoly(t.args[2])
	common := poly{k: bi0, ms: map[*Term]*big.Int{}}
	ra := poly{k: pa.k, ms: map[*Term]*big.Int{}}
	rb := poly{k: pb.k, ms: map[*Term]*big.Int{}}
	for m, c := range pa.ms {
		if d, ok := pb.ms[m]; ok && d.Cmp(c) == 0 {
			common.ms[m] = c
		} else {
			ra.ms[m] = c
		}
	}
	for m, c := range pb.ms {
		if _, ok := common.ms[m]; !ok {
			rb.ms[m] = c
		}
	}
	if len(common.ms) == 0 {
		if len(ra.ms) > 0 || len(rb.ms) > 0 || rb.k.Sign() == 0 {
			return t
		}
		return Add(IntB(rb.k), Ite(t.args[0], IntB(new(big.Int).Sub(ra.k, rb.k)), IntK(0)))
	}
	if len(rb.ms) == 0 || len(ra.ms) == 0 {
		k := rb.k
		if len(rb.ms) != 0 {
			k = ra.k
		}
		common.k = k
		ra.k = new(big.Int).Sub(ra.k, k)
		rb.k = new(big.Int).Sub(rb.k, k)
	}
	return Add(fromPoly(common), Ite(t.args[0], fromPoly(ra), fromPoly(rb)))
}

// scaleItes: k * ite(c, K1, K2) = ite(c, k*K1, k*K2) inside sums.
func scaleItes(t *Term) *Term {
	p := toPoly(t)
	var ks []*Term
	for m, c := range p.ms {
		if m.op == OIte && m.args[1].isK() && m.args[2].isK() && c.Cmp(bi1) != 0 {
			ks = append(ks, m)
		}
	}
	if len(ks) == 0 {
		return t
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	r := poly{k: p.k, ms: map[*Term]*big.Int{}}
	for m, c := range p.ms {
		r.ms[m] = c
	}
	sum := IntK(0)
	for _, m := range ks {
		c := IntB(p.ms[m])
		delete(r.ms, m)
		sum = Add(sum, Ite(m.args[0], Mul(c, m.args[1]), Mul(c, m.args[2])))
	}
	return Add(fromPoly(r), sum)
}

// underCond simplifies the branches of a conditional under its condition.
func underCond(t *Term) *Term {
	c, a, b := t.args[0], t.args[1], t.args[2]
	m1, m2 := map[*Term]*Term{}, map[*Term]*Term{}
	lits(c, true, m1)
	lits(c, false, m2)
	a2, b2 := a, b
	min := c.id
	for k := range m1 {
		if k.id < min {
			min = k.id
		}
	}
	if a.id > min && small(a, 80) {
		a2 = Subst(a, m1, map[*Term]*Term{})
	}
	if b.id > min && small(b, 80) {
		b2 = Subst(b, m2, map[*Term]*Term{})
	}
	if a2 == a && b2 == b {
		return t
	}
	return Ite(c, a2, b2)
}

// lits collects atoms decided by c = pos.
func lits(c *Term, pos bool, m map[*Term]*Term) {
	if c.op == ONot {
		lits(c.args[0], !pos, m)
		return
	}
	v := False
	if pos {
		v = True
	}
	m[c] = v
	m[Not(c)] = Not(v)
	if c.op == OAnd && pos || c.op == OOr && !pos {
		for _, a := range c.args {
			lits(a, pos, m)
		}
	}
}

func small(t *Term, max int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if len(seen) > max {
			return false
		}
		for _, a := range t.args {
			if !w(a) {
				return false
			}
		}
		return true
	}
	return w(t)
}
