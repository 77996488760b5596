package main

import "math/big"

// Constant tables indexed by a symbolic value become balanced decision trees
// over runs of constant (or unit-slope affine) values.

type tabRun struct {
	lo, hi int64
	val    *Term // value at lo
	slope  int64 // 0 or 1
}

// piecewise gives the value at i of the table keys->vals (keys ascending),
// def elsewhere (def nil: the index is known to be a key).
func piecewise(i *Term, keys []int64, vals []*Term, def *Term) *Term {
	var runs []tabRun
	affine := len(vals) > 0 && vals[0].sort.kind == SInt && i.sort.kind == SInt
	for n, k := range keys {
		v := vals[n]
		if m := len(runs); m > 0 {
			r := &runs[m-1]
			if k == r.hi+1 {
				if v == r.val && r.slope == 0 {
					r.hi = k
					continue
				}
				if affine && v.isK() && r.val.isK() && (r.slope == 1 || r.hi == r.lo) {
					d := new(big.Int).Sub(v.k, r.val.k)
					if d.IsInt64() && d.Int64() == k-r.lo {
						r.hi, r.slope = k, 1
						continue
					}
				}
			}
		}
		runs = append(runs, tabRun{lo: k, hi: k, val: v})
	}
	if len(runs) == 0 {
		return def
	}
	// fill gaps with the default
	type seg struct {
		lo, hi int64
		t      *Term
	}
	var segs []seg
	val := func(r tabRun) *Term {
		if r.slope == 0 {
			return r.val
		}
		return iadd(i, IntB(new(big.Int).Sub(r.val.k, big.NewInt(r.lo))))
	}
	for n, r := range runs {
		if def != nil && n > 0 && runs[n-1].hi+1 < r.lo {
			segs = append(segs, seg{runs[n-1].hi + 1, r.lo - 1, def})
		}
		segs = append(segs, seg{r.lo, r.hi, val(r)})
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return segs[a].t
		}
		m := (a + b) / 2
		x, y := build(a, m), build(m+1, b)
		return Ite(ileqAny(i, KOf(i.sort, segs[m].hi)), x, y)
	}
	t := build(0, len(segs)-1)
	if def != nil {
		t = Ite(And(ileqAny(KOf(i.sort, segs[0].lo), i), ileqAny(i, KOf(i.sort, segs[len(segs)-1].hi))), t, def)
	}
	return t
}

type constTable struct {
	keys []int64
	vals []*Term
	base *Term
}

var tableMemo = map[*Term]*constTable{}

// tableOf recognises a store chain of constants at constant indices.
func tableOf(a *Term) *constTable {
	if t, ok := tableMemo[a]; ok {
		return t
	}
	tableMemo[a] = nil
	m := map[int64]*Term{}
	b := a
	for b.op == OStore {
		k, v := b.args[1], b.args[2]
		if !k.isK() || !v.isK() || !k.k.IsInt64() {
			return nil
		}
		n := k.k.Int64()
		if _, dup := m[n]; !dup {
			m[n] = v
		}
		b = b.args[0]
		if t, ok := tableMemo[b]; ok && t != nil {
			break
		}
	}
	if t := tableMemo[b]; t != nil {
		for i, k := range t.keys {
			if _, dup := m[k]; !dup {
				m[k] = t.vals[i]
			}
		}
		b = t.base
	}
	if len(m) < 4 {
		return nil
	}
	t := &constTable{base: b}
	for k := range m {
		t.keys = append(t.keys, k)
	}
	sortInt64(t.keys)
	for _, k := range t.keys {
		t.vals = append(t.vals, m[k])
	}
	tableMemo[a] = t
	return t
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

// strTables: array terms that stand for the contents of string number idx of
// a constant table of short strings.
type strTable struct {
	idx  *Term
	strs []string
	max  int
}

var strTables = map[*Term]*strTable{}

func (t *strTable) at(a *Term, j *Term) *Term {
	pick := func(j int64) *Term {
		var keys []int64
		var vals []*Term
		for k, s := range t.strs {
			c := int64(0)
			if j < int64(len(s)) {
				c = int64(s[j])
			}
			keys = append(keys, int64(k))
			vals = append(vals, KOf(a.sort.elem, c))
		}
		return piecewise(t.idx, keys, vals, nil)
	}
	if j.isK() {
		if !j.k.IsInt64() || j.k.Sign() < 0 || j.k.Int64() >= int64(t.max) {
			return KOf(a.sort.elem, 0)
		}
		return pick(j.k.Int64())
	}
	r := KOf(a.sort.elem, 0)
	for n := int64(t.max) - 1; n >= 0; n-- {
		r = Ite(Eq(j, KOf(j.sort, n)), pick(n), r)
	}
	return r
}

// tableGet reads element idx of an array value whose elements are all
// constants; ok is false when they are not.
func (ex *Exec) tableGet(idx *Term, es []Val) (Val, bool) {
	if len(es) < 8 {
		return nil, false
	}
	switch es[0].(type) {
	case *Term:
		var keys []int64
		var vals []*Term
		for i, e := range es {
			t, ok := e.(*Term)
			if !ok || !t.isK() {
				return nil, false
			}
			keys = append(keys, int64(i))
			vals = append(vals, t)
		}
		return piecewise(idx, keys, vals, nil), true
	case *StrVal:
		var keys []int64
		var lens []*Term
		st := &strTable{idx: idx}
		var arr *Term
		for i := len(es) - 1; i >= 0; i-- {
			s, ok := es[i].(*StrVal)
			if !ok {
				return nil, false
			}
			c, ok := strConst(s)
			if !ok {
				return nil, false
			}
			if len(c) > st.max {
				st.max = len(c)
			}
			cs := ex.constStr(c)
			if arr == nil {
				arr = cs.arr
			} else {
				arr = Ite(Eq(idx, KOf(idx.sort, int64(i))), cs.arr, arr)
			}
		}
		for i, e := range es {
			c, _ := strConst(e.(*StrVal))
			st.strs = append(st.strs, c)
			keys = append(keys, int64(i))
			lens = append(lens, ex.ik(int64(len(c))))
		}
		if st.max <= 16 && arr.op == OIte {
			strTables[arr] = st
		}
		return &StrVal{arr: arr, off: ex.ik(0), len: piecewise(idx, keys, lens, nil)}, true
	}
	return nil, false
}

// strConst gives the text of a string value whose bytes are all constants.
func strConst(s *StrVal) (string, bool) {
	if s.c != nil {
		return *s.c, true
	}
	if !s.len.isK() || !s.off.isK() || s.len.k.Int64() > 64 {
		return "", false
	}
	var b []byte
	for i := int64(0); i < s.len.k.Int64(); i++ {
		c := Select(s.arr, KOf(s.off.sort, s.off.k.Int64()+i))
		if !c.isK() {
			return "", false
		}
		b = append(b, byte(c.k.Int64()))
	}
	return string(b), true
}

func ileqAny(a, b *Term) *Term {
	if a.sort.kind == SBV {
		return BVCmp("bvule", a, b)
	}
	return Le(a, b)
}
