package main

import (
	"context"
	"encoding/json"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

const modelElems = 24

// want tree: how to read a parameter back from a solver model
type wnode struct {
	kind   string // int bool slice string struct array ptr null
	t      int    // index of the value (len for slices)
	c      int    // cap
	nilT   int
	sub    []*wnode
	signed bool
	w      int
}

type wanter struct {
	ex    *Exec
	terms []*Term
	lens  []*Term
	st    *State
}

func (w *wanter) term(t *Term) int {
	w.terms = append(w.terms, t)
	return len(w.terms) - 1
}

func (w *wanter) val(v Val, t types.Type, depth int) *wnode {
	null := &wnode{kind: "null"}
	if depth > 6 || v == nil {
		return null
	}
	switch x := v.(type) {
	case *Term:
		r, ok := w.ex.rep(t)
		if !ok {
			return null
		}
		if r.kind == SBool {
			return &wnode{kind: "bool", t: w.term(x)}
		}
		return &wnode{kind: "int", t: w.term(x), signed: r.signed, w: r.w}
	case *StructVal:
		u := t.Underlying().(*types.Struct)
		n := &wnode{kind: "struct"}
		for i, f := range x.f {
			n.sub = append(n.sub, w.val(f, u.Field(i).Type(), depth+1))
		}
		return n
	case *ArrVal:
		u := t.Underlying().(*types.Array)
		n := &wnode{kind: "struct"}
		for _, f := range x.e {
			n.sub = append(n.sub, w.val(f, u.Elem(), depth+1))
		}
		return n
	case *SliceVal:
		n := &wnode{kind: "slice", t: w.term(x.len), c: w.term(x.cap), nilT: w.term(Eq(x.obj, IntK(0)))}
		w.lens = append(w.lens, x.len)
		if depth < 4 {
			for i := int64(0); i < modelElems; i++ {
				e := w.ex.loadElem(w.st, x.elem, x.obj, iadd(x.off, w.ex.ik(i)))
				n.sub = append(n.sub, w.val(e, x.elem, depth+3))
			}
		}
		return n
	case *StrVal:
		n := &wnode{kind: "string", t: w.term(x.len)}
		w.lens = append(w.lens, x.len)
		for i := int64(0); i < modelElems; i++ {
			n.sub = append(n.sub, &wnode{kind: "int", t: w.term(w.ex.strAt(x, w.ex.ik(i))), w: 8})
		}
		return n
	case *PtrVal:
		n := &wnode{kind: "ptr", nilT: -1}
		for _, a := range x.alts {
			if a.loc == nil {
				n.nilT = w.term(a.g)
			} else if a.loc.kind == LCell && len(a.loc.path) == 0 {
				n.sub = []*wnode{w.val(w.st.cells[a.loc.cell], a.loc.typ, depth+1)}
			}
		}
		if n.sub == nil {
			return null
		}
		return n
	}
	return null
}

var bvRe = regexp.MustCompile(`^#([xb])([0-9a-fA-F]+)$`)

func parseValue(s string) *big.Int {
	s = strings.TrimSpace(s)
	neg := false
	if strings.HasPrefix(s, "(-") {
		neg = true
		s = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(s, "(-"), ")"))
	}
	if m := bvRe.FindStringSubmatch(s); m != nil {
		base := 16
		if m[1] == "b" {
			base = 2
		}
		n, _ := new(big.Int).SetString(m[2], base)
		return n
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	if neg {
		n.Neg(n)
	}
	return n
}

var pairRe = regexp.MustCompile(`\(w(\d+)\s+((?:\(- \d+\))|(?:\(-\d+\))|[^()\s]+)\)`)

func (w *wanter) decode(n *wnode, vals map[int]string) interface{} {
	iv := func(i int) *big.Int {
		if s, ok := vals[i]; ok {
			if b := parseValue(s); b != nil {
				return b
			}
		}
		return new(big.Int)
	}
	switch n.kind {
	case "int":
		b := iv(n.t)
		if n.signed && b.Cmp(bvMask(n.w-1)) > 0 {
			b = new(big.Int).Sub(b, new(big.Int).Lsh(bi1, uint(n.w)))
		}
		return b.String()
	case "bool":
		return vals[n.t] == "true"
	case "struct":
		out := []interface{}{}
		for _, s := range n.sub {
			out = append(out, w.decode(s, vals))
		}
		return out
	case "slice":
		if vals[n.nilT] == "true" {
			return nil
		}
		l, c := iv(n.t), iv(n.c)
		if !l.IsInt64() || l.Int64() > 1<<20 {
			l = big.NewInt(1 << 20)
		}
		if !c.IsInt64() || c.Int64() > l.Int64()+64 {
			c = big.NewInt(l.Int64() + 64)
		}
		es := []interface{}{}
		for i, s := range n.sub {
			if int64(i) >= c.Int64() {
				break
			}
			es = append(es, w.decode(s, vals))
		}
		return map[string]interface{}{"len": l.Int64(), "cap": c.Int64(), "elems": es}
	case "string":
		l := iv(n.t).Int64()
		es := []interface{}{}
		for i := int64(0); i < l && i < 4096; i++ {
			if i < int64(len(n.sub)) {
				es = append(es, w.decode(n.sub[i], vals))
			} else {
				es = append(es, "32")
			}
		}
		return es
	case "ptr":
		if n.nilT >= 0 && vals[n.nilT] == "true" {
			return nil
		}
		return map[string]interface{}{"v": w.decode(n.sub[0], vals)}
	}
	return nil
}

// models asks the solver for parameter values violating the given obligations.
func (r *ContractResult) models(pr *Prover, max int) [][]interface{} {
	if len(r.subs) > 0 {
		var out [][]interface{}
		for _, s := range r.subs {
			if len(s.failed) > 0 && len(out) < max {
				out = append(out, s.models(pr, max-len(out))...)
			}
		}
		return out
	}
	ex := r.ex
	if ex == nil || ex.entrySt == nil {
		return nil
	}
	termMu.Lock()
	w := &wanter{ex: ex, st: ex.entrySt.clone()}
	var nodes []*wnode
	func() {
		defer func() { recover() }()
		for _, p := range ex.paramInfo {
			nodes = append(nodes, w.val(p.val, p.typ, 0))
		}
	}()
	var small []*Term
	for _, l := range w.lens {
		small = append(small, ileq(l, KOf(l.sort, 12)))
	}
	var qs []*Query
	n := 0
	for _, ob := range r.failed {
		if n >= max {
			break
		}
		n++
		as := ex.allAssumes(ob.nAss)
		qs = append(qs, ex.build(as, And(append([]*Term{ob.pc}, small...)...), ob.goal, 2, w.terms))
		qs = append(qs, ex.build(as, ob.pc, ob.goal, 2, w.terms))
	}
	termMu.Unlock()
	var out [][]interface{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, q := range qs {
		q := q
		if q.trivial {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, s := pr.run(context.Background(), "z3-new", q.text, 10)
			if res != "sat" {
				return
			}
			vals := map[int]string{}
			for _, m := range pairRe.FindAllStringSubmatch(s, -1) {
				i := 0
				for _, c := range m[1] {
					i = i*10 + int(c-'0')
				}
				vals[i] = m[2]
			}
			var args []interface{}
			for _, nd := range nodes {
				args = append(args, w.decode(nd, vals))
			}
			mu.Lock()
			out = append(out, args)
			mu.Unlock()
		}()
	}
	wg.Wait()
	return out
}

func writeModels(work, id string, ms [][]interface{}) string {
	f := filepath.Join(work, "models_"+sanitize(id)+".json")
	b, _ := json.Marshal(map[string]interface{}{id: ms})
	os.WriteFile(f, b, 0o644)
	return f
}
