package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- solver processes

type Prover struct {
	dir   string
	sem   chan struct{}
	n     int64
	mu    sync.Mutex
	stats map[string]*solverStat
	debug bool
}

type solverStat struct {
	proved int
	time   float64
	calls  int
}

func NewProver(dir string) *Prover {
	return &Prover{dir: dir, sem: make(chan struct{}, 8), stats: map[string]*solverStat{}, debug: os.Getenv("VC_DEBUG") != ""}
}

func (p *Prover) stat(s string, d float64, proved bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := p.stats[s]
	if x == nil {
		x = &solverStat{}
		p.stats[s] = x
	}
	x.calls++
	x.time += d
	if proved {
		x.proved++
	}
}

// run one solver on one query text; result unsat/sat/unknown and raw output.
func (p *Prover) run(ctx context.Context, solver, text string, secs int) (string, string) {
	select {
	case p.sem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled"
	}
	defer func() { <-p.sem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	solver, linear := strings.CutSuffix(solver, "-lin")
	n := atomic.AddInt64(&p.n, 1)
	f := filepath.Join(p.dir, fmt.Sprintf("q%d.smt2", n))
	pre := "(set-option :produce-models true)\n"
	if strings.HasPrefix(solver, "cvc5") {
		pre += "(set-logic ALL)\n"
	}
	// products and quotients of symbols, with their meaning or without
	for fn, op := range map[string]string{"vmul!": "*", "vdiv!": "div", "vmod!": "mod"} {
		if strings.Contains(text, "("+fn) {
			if linear {
				pre += "(declare-fun " + fn + " (Int Int) Int)\n"
			} else {
				pre += "(define-fun " + fn + " ((a Int) (b Int)) Int (" + op + " a b))\n"
			}
		}
	}
	if err := os.WriteFile(f, []byte(pre+text), 0o644); err != nil {
		return "unknown", err.Error()
	}
	if !p.debug {
		defer os.Remove(f)
	}
	var cmd *exec.Cmd
	cctx, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	switch solver {
	case "z3":
		cmd = exec.CommandContext(cctx, "z3", fmt.Sprintf("-T:%d", secs), "-memory:3000", f)
	case "z3-new":
		cmd = exec.CommandContext(cctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", f)
	case "z3-new-arith2":
		cmd = exec.CommandContext(cctx, "z3-new", fmt.Sprintf("-T:%d", secs), "-memory:3000", "smt.arith.solver=2", f)
	case "cvc5":
		cmd = exec.CommandContext(cctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--arrays-exp", f)
	case "cvc5-nl":
		cmd = exec.CommandContext(cctx, "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--arrays-exp", "--nl-ext-tplanes", f)
	}
	t0 := time.Now()
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = strings.TrimSpace(s[:i])
	}
	res := "unknown"
	if first == "unsat" || first == "sat" {
		res = first
	}
	if strings.Contains(first, "error") && p.debug {
		fmt.Fprintln(os.Stderr, "solver error:", solver, f, first)
	}
	p.stat(solver, d, res == "unsat")
	return res, s
}

// ---------------------------------------------------------------- query construction

type quant struct {
	q    *Term // proxy literal (True: always holds)
	b    *Term
	body *Term
	done map[*Term]bool
	pats []pat
	gen  int
}
type pat struct {
	key  string
	rest *Term // idx = coef*b + rest
	neg  bool
	app  string
	ai   int
	sort *Sort
}

type qbuild struct {
	ex      *Exec
	out     []*Term
	quants  []*quant
	qmemo   map[*Term]*quant
	copies  map[*Term]*Term
	lowMemo map[*Term]*Term
	skol    []*Term
	skMemo  map[*Term]*Term
	gen     int
	ints    map[*Term]bool
}

func newQB(ex *Exec) *qbuild {
	return &qbuild{ex: ex, qmemo: map[*Term]*quant{}, copies: map[*Term]*Term{}, lowMemo: map[*Term]*Term{}, skMemo: map[*Term]*Term{}}
}

// elim removes quantifiers: pos means the formula is asserted.
func (b *qbuild) elim(t *Term, pos bool) *Term {
	if !t.hasQ {
		return t
	}
	switch t.op {
	case ONot:
		return Not(b.elim(t.args[0], !pos))
	case OAnd, OOr:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = b.elim(a, pos)
		}
		if t.op == OAnd {
			return And(args...)
		}
		return Or(args...)
	case OForall:
		if !pos {
			sk := b.skMemo[t]
			if sk == nil {
				sk = Fresh("sk", t.args[0].sort)
				b.skMemo[t] = sk
				b.skol = append(b.skol, sk)
			}
			return b.elim(SubstB(t.args[1], t.args[0], sk), false)
		}
		q := b.qmemo[t]
		if q == nil {
			q = &quant{q: Fresh("qp", BoolS), b: t.args[0], body: t.args[1], done: map[*Term]bool{}, gen: b.gen}
			q.pats = patterns(q.body, q.b)
			b.qmemo[t] = q
			b.quants = append(b.quants, q)
		}
		return q.q
	case OIte:
		if t.sort.kind == SBool {
			c, x, y := t.args[0], t.args[1], t.args[2]
			return And(Or(b.elim(Not(c), pos), b.elim(x, pos)), Or(b.elim(c, pos), b.elim(y, pos)))
		}
	case OEq:
		if t.args[0].sort.kind == SBool {
			x, y := t.args[0], t.args[1]
			return And(Or(b.elim(Not(x), pos), b.elim(y, pos)), Or(b.elim(Not(y), pos), b.elim(x, pos)))
		}
	}
	// quantified condition inside a term: name it
	return b.nameQ(t)
}

func (b *qbuild) nameQ(t *Term) *Term {
	m := map[*Term]*Term{}
	var find func(t *Term)
	seen := map[*Term]bool{}
	find = func(t *Term) {
		if !t.hasQ || seen[t] {
			return
		}
		seen[t] = true
		if t.sort.kind == SBool && (t.op == OForall || t.op == OAnd || t.op == OOr || t.op == ONot) && len(t.fb) == 0 {
			p := Fresh("qn", BoolS)
			m[t] = p
			b.out = append(b.out, Or(Not(p), b.elim(t, true)), Or(p, b.elim(Not(t), true)))
			return
		}
		for _, a := range t.args {
			find(a)
		}
	}
	for _, a := range t.args {
		find(a)
	}
	return Subst(t, m, map[*Term]*Term{})
}

var keyRe = regexp.MustCompile(`^H0?_(.*?)(!\d+)?$`)

// arrKey names the heap family an array term belongs to ("" unknown).
func arrKey(a *Term) string {
	for d := 0; d < 60; d++ {
		switch a.op {
		case OStore, OCopy:
			a = a.args[0]
			continue
		case OSelect:
			a = a.args[0]
			continue
		case OIte:
			k := arrKey(a.args[1])
			if k == "" {
				return arrKey(a.args[2])
			}
			return k
		case OVar:
			if m := keyRe.FindStringSubmatch(a.name); m != nil {
				return strings.TrimSuffix(m[1], ".obj")
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

// linear decomposition idx = ±b + rest
func linIn(idx, b *Term) (rest *Term, neg, ok bool) {
	if idx == b {
		return KOf(b.sort, 0), false, true
	}
	if idx.sort.kind == SInt && idx.op == OPoly {
		for i, a := range idx.args {
			if a == b {
				c := idx.coefs[i]
				if !c.IsInt64() || c.Int64() != 1 && c.Int64() != -1 {
					return nil, false, false
				}
				r := Sub(idx, Mul(IntB(c), b))
				if hasFB(r, b) {
					return nil, false, false
				}
				return r, c.Int64() == -1, true
			}
		}
	}
	if idx.sort.kind == SBV && idx.op == OBV && (idx.name == "bvadd" || idx.name == "bvsub") {
		x, y := idx.args[0], idx.args[1]
		if idx.name == "bvadd" {
			if r, n, ok := linIn(x, b); ok && !hasFB(y, b) {
				return iadd(r, y), n, true
			}
			if r, n, ok := linIn(y, b); ok && !hasFB(x, b) {
				return iadd(r, x), n, true
			}
		} else {
			if r, n, ok := linIn(x, b); ok && !hasFB(y, b) {
				return isub(r, y), n, true
			}
		}
	}
	return nil, false, false
}

func patterns(body, b *Term) []pat {
	var out []pat
	seen := map[*Term]bool{}
	dup := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !hasFB(t, b) {
			return
		}
		seen[t] = true
		switch t.op {
		case OSelect:
			if r, n, ok := linIn(t.args[1], b); ok {
				p := pat{key: arrKey(t.args[0]), rest: r, neg: n, sort: t.args[0].sort}
				k := fmt.Sprint(p.key, "|", r.id, n, p.sort.str)
				if !dup[k] {
					dup[k] = true
					out = append(out, p)
				}
			}
		case OApp:
			for i, a := range t.args {
				if a.sort != b.sort {
					continue
				}
				if r, n, ok := linIn(a, b); ok {
					p := pat{app: t.name, ai: i, rest: r, neg: n}
					k := fmt.Sprint(t.name, i, r.id, n)
					if !dup[k] {
						dup[k] = true
						out = append(out, p)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

// lower replaces leftover array copies by fresh arrays with a defining axiom.
func (b *qbuild) lower(t *Term) *Term {
	if r, ok := b.lowMemo[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = b.lower(a)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	if r.op == OCopy {
		if len(r.fb) > 0 {
			b.lowMemo[t] = r
			return r
		}
		v := b.copies[r]
		if v == nil {
			k := arrKey(r.args[0])
			v = Fresh("H_"+k+".obj", r.sort)
			b.copies[r] = v
			i := NewBound("c", r.sort.idx)
			d, doff, src, soff, n := r.args[0], r.args[1], r.args[2], r.args[3], r.args[4]
			in := And(ileq(doff, i), iltq(i, iadd(doff, n)))
			body := Eq(Select(v, i), Ite(in, Select(src, iadd(isub(i, doff), soff)), Select(d, i)))
			q := &quant{q: True, b: i, body: body, done: map[*Term]bool{}, gen: b.gen}
			q.pats = []pat{{key: "", rest: KOf(i.sort, 0), sort: r.sort}}
			b.quants = append(b.quants, q)
		}
		r = v
	}
	b.lowMemo[t] = r
	return r
}

// quantified array equalities (extensionality) are left to the solver.

type groundIdx struct {
	byKey map[string][]*Term // heap key|sort -> index terms
	any   map[*Sort][]*Term  // by array sort
	apps  map[string][]*Term // app arg
}

func collectGround(ts []*Term, skol []*Term) *groundIdx {
	g := &groundIdx{byKey: map[string][]*Term{}, any: map[*Sort][]*Term{}, apps: map[string][]*Term{}}
	seen := map[*Term]bool{}
	dk := map[string]map[*Term]bool{}
	da := map[*Sort]map[*Term]bool{}
	dp := map[string]map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSelect && len(t.args[1].fb) == 0 {
			k := arrKey(t.args[0]) + "|" + t.args[0].sort.str
			if dk[k] == nil {
				dk[k] = map[*Term]bool{}
			}
			if !dk[k][t.args[1]] {
				dk[k][t.args[1]] = true
				g.byKey[k] = append(g.byKey[k], t.args[1])
			}
			s := t.args[0].sort
			if da[s] == nil {
				da[s] = map[*Term]bool{}
			}
			if !da[s][t.args[1]] {
				da[s][t.args[1]] = true
				g.any[s] = append(g.any[s], t.args[1])
			}
		}
		if t.op == OStore && len(t.args[1].fb) == 0 {
			s := t.sort
			if da[s] == nil {
				da[s] = map[*Term]bool{}
			}
			if !da[s][t.args[1]] {
				da[s][t.args[1]] = true
				g.any[s] = append(g.any[s], t.args[1])
				k := arrKey(t.args[0]) + "|" + s.str
				if dk[k] == nil {
					dk[k] = map[*Term]bool{}
				}
				if !dk[k][t.args[1]] {
					dk[k][t.args[1]] = true
					g.byKey[k] = append(g.byKey[k], t.args[1])
				}
			}
		}
		if t.op == OApp {
			for i, a := range t.args {
				if len(a.fb) == 0 && a.sort.kind != SArray {
					k := fmt.Sprint(t.name, "#", i)
					if dp[k] == nil {
						dp[k] = map[*Term]bool{}
					}
					if !dp[k][a] {
						dp[k][a] = true
						g.apps[k] = append(g.apps[k], a)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return g
}

func (b *qbuild) candidates(q *quant, g *groundIdx, limit int, hot map[*Term]bool) []*Term {
	seen := map[*Term]bool{}
	warm := map[*Term]bool{}
	var out []*Term
	add := func(gi *Term, p pat) {
		if gi.sort != q.b.sort {
			return
		}
		if hot[gi] {
			defer func(n int) {
				if len(out) > n {
					warm[out[n]] = true
				}
			}(len(out))
		}
		var c *Term
		if p.neg {
			c = isub(p.rest, gi)
		} else {
			c = isub(gi, p.rest)
		}
		if len(c.fb) > 0 || seen[c] || q.done[c] {
			return
		}
		seen[c] = true
		out = append(out, c)
	}
	for _, p := range q.pats {
		if p.app != "" {
			for _, gi := range g.apps[fmt.Sprint(p.app, "#", p.ai)] {
				add(gi, p)
			}
			continue
		}
		if p.key != "" {
			for _, gi := range g.byKey[p.key+"|"+p.sort.str] {
				add(gi, p)
			}
			for _, gi := range g.byKey["|"+p.sort.str] {
				add(gi, p)
			}
		} else {
			for _, gi := range g.any[p.sort] {
				add(gi, p)
			}
		}
	}
	for _, s := range b.skol {
		if s.sort == q.b.sort && !seen[s] && !q.done[s] {
			warm[s] = true
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if a, b := warm[out[i]], warm[out[j]]; a != b {
			return a
		}
		if out[i].size != out[j].size {
			return out[i].size < out[j].size
		}
		return out[i].id < out[j].id
	})
	if hot != nil {
		n := 0
		for n < len(out) && warm[out[n]] {
			n++
		}
		out = out[:n]
	}
	if len(out) > limit {
		out = out[:limit]
	}
	return out
}

type Query struct {
	text    string // quantifier-free
	qtext   string // with quantifiers (empty when none)
	hasNL   bool
	values  []string // names for get-value
	trivial bool
}

// build constructs the query for assumptions ∧ pc ∧ ¬goal.
func (ex *Exec) build(assumes []*Term, pc, goal *Term, rounds int, want []*Term) *Query {
	return ex.buildN(assumes, pc, goal, rounds, want, 1)
}

// buildN: scale above one instantiates more, starting from the terms of the goal.
func (ex *Exec) buildN(assumes []*Term, pc, goal *Term, rounds int, want []*Term, scale int) *Query {
	b := newQB(ex)
	base := relevant(assumes, pc, goal)
	for _, t := range base {
		b.out = append(b.out, b.elim(t, true))
	}
	b.out = append(b.out, b.elim(pc, true), b.elim(goal, false).negate())
	for i := range b.out {
		b.out[i] = b.lower(b.out[i])
	}
	total := 0
	var warm []*Term
	for r := 0; r < rounds && len(b.quants) > 0; r++ {
		b.gen = r + 1
		g := collectGround(b.out, b.skol)
		var hot map[*Term]bool
		if scale > 1 {
			if r == 0 {
				warm = append(warm, b.out[len(b.out)-1])
			}
			hot = map[*Term]bool{}
			h := collectGround(warm, nil)
			for _, m := range []map[string][]*Term{h.byKey, h.apps} {
				for _, l := range m {
					for _, t := range l {
						hot[t] = true
					}
				}
			}
		}
		nq := len(b.quants)
		added := 0
		for qi := 0; qi < nq; qi++ {
			q := b.quants[qi]
			lim := 60
			if r > 0 {
				lim = 40
			}
			if scale > 1 {
				lim = 10 * (scale - 1)
			}
			for _, c := range b.candidates(q, g, lim, hot) {
				q.done[c] = true
				inst := SubstB(q.body, q.b, c)
				e := b.elim(inst, true)
				f := b.lower(Implies(q.q, e))
				if f != True {
					b.out = append(b.out, f)
					if scale > 1 {
						warm = append(warm, f)
					}
					added++
					total++
				}
			}
			if total > 3000 {
				break
			}
		}
		if added == 0 || total > 3000 {
			break
		}
	}
	for i := range b.out {
		b.out[i] = b.lower(b.out[i])
	}
	b.out, want = bitFields(b.out, want)
	b.out = factorItes(b.out)
	q := &Query{}
	for _, t := range b.out {
		if t == False {
			q.trivial = true
			return q
		}
	}
	extra, nl := lemmas(b.out)
	q.hasNL = nl
	q.text = emit(append(append([]*Term{}, b.out...), extra...), nil, want)
	if len(b.quants) > 0 {
		var qs []*Term
		for _, x := range b.quants {
			qs = append(qs, Implies(x.q, Forall(x.b, x.body)))
		}
		q.qtext = emit(append(append([]*Term{}, b.out...), extra...), qs, want)
	}
	return q
}

func (t *Term) negate() *Term { return Not(t) }

// relevant drops assumptions sharing no symbol (transitively) with the goal.
func relevant(assumes []*Term, pc, goal *Term) []*Term {
	assumes = dedupe(assumes)
	vars := map[*Term]map[*Term]bool{}
	cache := map[*Term][]*Term{}
	_ = vars
	var syms func(t *Term) []*Term
	syms = func(t *Term) []*Term {
		if r, ok := cache[t]; ok {
			return r
		}
		set := map[*Term]bool{}
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OVar {
				set[t] = true
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
		var out []*Term
		for v := range set {
			out = append(out, v)
		}
		cache[t] = out
		return out
	}
	live := map[*Term]bool{}
	for _, t := range []*Term{pc, goal} {
		for _, v := range syms(t) {
			live[v] = true
		}
	}
	use := make([]bool, len(assumes))
	for ch := true; ch; {
		ch = false
		for i, a := range assumes {
			if use[i] {
				continue
			}
			ss := syms(a)
			hit := len(ss) == 0
			for _, v := range ss {
				if live[v] {
					hit = true
					break
				}
			}
			if hit {
				use[i] = true
				ch = true
				for _, v := range ss {
					live[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range assumes {
		if use[i] {
			out = append(out, a)
		}
	}
	return out
}

type virtProd struct{ f, x, p *Term } // p = f*x, p a sum

// sums of products that share a factor
func virtualProducts(polys, muls []*Term) []virtProd {
	var out []virtProd
	seen := map[[2]int]bool{}
	for _, t := range polys {
		fs := map[*Term]bool{}
		var order []*Term
		for _, a := range t.args {
			if a.op == OMul && len(a.args) == 2 {
				for _, f := range a.args {
					if !fs[f] {
						fs[f] = true
						order = append(order, f)
					}
				}
			}
		}
		for _, f := range order {
			x, p, k := IntK(0), IntK(0), 0
			for i, a := range t.args {
				c := IntB(t.coefs[i])
				switch {
				case a.op == OMul && len(a.args) == 2 && a.args[0] == f:
					x, p, k = Add(x, Mul(c, a.args[1])), Add(p, Mul(c, a)), k+1
				case a.op == OMul && len(a.args) == 2 && a.args[1] == f:
					x, p, k = Add(x, Mul(c, a.args[0])), Add(p, Mul(c, a)), k+1
				case a == f:
					x, p, k = Add(x, c), Add(p, Mul(c, a)), k+1
				}
			}
			key := [2]int{f.id, x.id}
			if k < 2 || x.isK() || seen[key] || len(out) >= 24 {
				continue
			}
			seen[key] = true
			out = append(out, virtProd{f, x, p})
		}
	}
	return out
}

func pairLemma(f, x, m, y, o *Term) []*Term {
	p := Le(IntK(0), f)
	return []*Term{
		Implies(And(p, Le(AddK(x, 1), y)), Le(Add(m, f), o)), Implies(And(p, Le(AddK(y, 1), x)), Le(Add(o, f), m)),
		Implies(Eq(x, y), Eq(m, o)),
	}
}

// lemmas for nonlinear terms and division by symbols.
func lemmas(ts []*Term) (extra []*Term, nl bool) {
	seen := map[*Term]bool{}
	var muls, divs, polys []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.fb) == 0 {
			switch t.op {
			case OMul:
				muls = append(muls, t)
			case OPoly:
				polys = append(polys, t)
			case ODiv, OMod:
				if !t.args[1].isK() {
					divs = append(divs, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	dd := map[[2]int]bool{}
	for _, d := range divs {
		nl = true
		a, m := d.args[0], d.args[1]
		k := [2]int{a.id, m.id}
		if dd[k] {
			continue
		}
		dd[k] = true
		qq := intern(&Term{op: ODiv, sort: IntS, args: []*Term{a, m}})
		rr := intern(&Term{op: OMod, sort: IntS, args: []*Term{a, m}})
		mq := Mul(m, qq)
		extra = append(extra, Implies(Lt(IntK(0), m), And(Eq(a, Add(mq, rr)), Le(IntK(0), rr), Lt(rr, m))),
			Implies(And(Lt(IntK(0), m), Le(IntK(0), a)), And(Le(IntK(0), qq), Le(qq, a))))
		if mq.op == OMul {
			muls = append(muls, mq)
		}
		// a = m*x + rest with 0 <= rest < m decides both
		if a.op == OPoly {
			x, p := IntK(0), IntK(0)
			for i, t := range a.args {
				c := IntB(a.coefs[i])
				switch {
				case t == m:
					x, p = Add(x, c), Add(p, Mul(c, t))
				case t.op == OMul && len(t.args) == 2 && t.args[0] == m:
					x, p = Add(x, Mul(c, t.args[1])), Add(p, Mul(c, t))
				case t.op == OMul && len(t.args) == 2 && t.args[1] == m:
					x, p = Add(x, Mul(c, t.args[0])), Add(p, Mul(c, t))
				}
			}
			if x != IntK(0) {
				rest := Sub(a, p)
				extra = append(extra, Implies(And(Le(IntK(0), rest), Lt(rest, m)), And(Eq(qq, x), Eq(rr, rest), Eq(mq, p))))
			}
		}
	}
	muls = dedupe(muls)
	if len(muls) > 0 {
		nl = true
	}
	if len(muls) > 40 {
		muls = muls[:40]
	}
	n := 0
	for _, m := range muls {
		if len(m.args) == 2 {
			x, y := m.args[0], m.args[1]
			extra = append(extra,
				Implies(And(Le(IntK(0), x), Le(IntK(0), y)), Le(IntK(0), m)),
				Implies(And(Lt(IntK(0), x), Lt(IntK(0), y)), And(Le(x, m), Le(y, m))),
				Implies(Or(Eq(x, IntK(0)), Eq(y, IntK(0))), Eq(m, IntK(0))))
		}
	}
	virt := virtualProducts(polys, muls)
	for i, v := range virt {
		for j, o := range muls {
			if n > 600 {
				break
			}
			for c := 0; c < 2 && len(o.args) == 2; c++ {
				if o.args[c] == v.f && v.p != o {
					n += 2
					extra = append(extra, pairLemma(v.f, v.x, v.p, o.args[1-c], o)...)
				}
			}
			_ = j
		}
		for _, w := range virt[i+1:] {
			if v.f == w.f && n <= 600 {
				n += 2
				extra = append(extra, pairLemma(v.f, v.x, v.p, w.x, w.p)...)
			}
		}
	}
	n = 0
	for i, m := range muls {
		for _, o := range muls[i+1:] {
			if len(m.args) != 2 || len(o.args) != 2 || n > 400 {
				continue
			}
			for a := 0; a < 2; a++ {
				for c := 0; c < 2; c++ {
					if m.args[a] == o.args[c] {
						f := m.args[a]
						x, y := m.args[1-a], o.args[1-c]
						p := Le(IntK(0), f)
						n += 2
						extra = append(extra,
							Implies(And(p, Le(x, y)), Le(m, o)), Implies(And(p, Le(y, x)), Le(o, m)),
							Implies(And(p, Le(AddK(x, 1), y)), Le(Add(m, f), o)), Implies(And(p, Le(AddK(y, 1), x)), Le(Add(o, f), m)))
					}
				}
			}
		}
	}
	return
}

// emit prints a satisfiability query.
func emit(ts []*Term, qs []*Term, want []*Term) string {
	var sb strings.Builder
	count := map[*Term]int{}
	var order []*Term
	vars := map[string]*Term{}
	apps := map[string]*Term{}
	var bnds []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
		switch t.op {
		case OVar:
			vars[t.name] = t
		case OApp:
			apps[t.name] = t
		}
		if t.sort.kind == SInt && len(t.fb) == 0 && (t.lo != nil || t.hi != nil) && (t.op == OVar || t.op == OSelect || t.op == OApp || t.op == OIte && (t.args[1].lo == nil || t.args[2].lo == nil)) {
			bnds = append(bnds, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, t := range qs {
		walk(t)
	}
	for _, t := range want {
		walk(t)
	}
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symSMT(n), vars[n].sort.str)
	}
	names = names[:0]
	for n := range apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := apps[n]
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort.str)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symSMT(n), strings.Join(as, " "), t.sort.str)
	}
	defs := map[*Term]string{}
	for _, t := range order {
		if count[t] > 1 && len(t.args) > 0 && len(t.fb) == 0 && t.op != OForall {
			n := fmt.Sprintf("d%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.str, smtInline(t, defs, 0))
			defs[t] = n
		}
	}
	for _, t := range bnds {
		s := smtInline(t, defs, 1)
		if t.lo != nil {
			fmt.Fprintf(&sb, "(assert (<= %s %s))\n", bigSMT(t.lo), s)
		}
		if t.hi != nil {
			fmt.Fprintf(&sb, "(assert (<= %s %s))\n", s, bigSMT(t.hi))
		}
	}
	for _, t := range ts {
		if t == True {
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", smtInline(t, defs, 1))
	}
	for _, t := range qs {
		if t == True {
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", smtInline(t, defs, 1))
	}
	for i, w := range want {
		fmt.Fprintf(&sb, "(declare-fun w%d () %s)\n(assert (= w%d %s))\n", i, w.sort.str, i, smtInline(w, defs, 1))
	}
	sb.WriteString("(check-sat)\n")
	if len(want) > 0 {
		sb.WriteString("(get-value (")
		for i := range want {
			fmt.Fprintf(&sb, " w%d", i)
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// ---------------------------------------------------------------- deciding

func (ex *Exec) allAssumes(n int) []*Term {
	if n < 0 || n > len(ex.assumes) {
		n = len(ex.assumes)
	}
	return append(append([]*Term{}, ex.assumes[:n]...), ex.specAx...)
}

func (ex *Exec) quick(pc, goal *Term) bool { return ex.quickMany(pc, []*Term{goal})[0] }

func (ex *Exec) quickMany(pc *Term, goals []*Term) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	as := ex.allAssumes(-1)
	for i, g := range goals {
		if g == True || pc == False {
			out[i] = true
			continue
		}
		if g == False {
			continue
		}
		key := ""
		q := ex.build(as, pc, g, 1, nil)
		if q.trivial {
			out[i] = true
			continue
		}
		key = q.text
		ex.prover.mu.Lock()
		r, ok := ex.qcache[key]
		ex.prover.mu.Unlock()
		if ok {
			out[i] = r
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, _ := ex.prover.run(context.Background(), "z3-new", q.text, 2)
			out[i] = r == "unsat"
			ex.prover.mu.Lock()
			ex.qcache[key] = out[i]
			ex.prover.mu.Unlock()
		}()
	}
	wg.Wait()
	return out
}

type verdict struct {
	proved bool
	sat    bool
	solver string
	secs   float64
	out    string // model output when sat
	reason string
}

// decide runs the portfolio on one query.
func (p *Prover) decide(q *Query, secs int) verdict {
	if q.trivial {
		return verdict{proved: true, solver: "simplifier"}
	}
	t0 := time.Now()
	first := 4
	if secs < first {
		first = secs
	}
	if q.hasNL {
		if r, _ := p.run(context.Background(), "z3-new-lin", q.text, first); r == "unsat" {
			return verdict{proved: true, solver: "z3-new", secs: time.Since(t0).Seconds()}
		}
	}
	r, out := p.run(context.Background(), "z3-new", q.text, first)
	if r == "unsat" {
		return verdict{proved: true, solver: "z3-new", secs: time.Since(t0).Seconds()}
	}
	v := verdict{}
	if r == "sat" {
		v.sat = true
		v.out = out
		if q.qtext == "" {
			v.secs = time.Since(t0).Seconds()
			return v
		}
	}
	type job struct{ solver, text string }
	var jobs []job
	if r != "sat" {
		jobs = append(jobs, job{"z3-new", q.text}, job{"z3", q.text}, job{"cvc5", q.text})
		if q.hasNL {
			jobs = append(jobs, job{"cvc5-nl", q.text}, job{"z3-new-arith2", q.text}, job{"z3-new-lin", q.text}, job{"cvc5-lin", q.text})
		}
	}
	if q.qtext != "" {
		jobs = append(jobs, job{"z3-new", q.qtext}, job{"cvc5", q.qtext})
		if r == "sat" {
			jobs = append(jobs, job{"z3", q.qtext})
			if secs > 15 {
				secs = 15
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		j        job
		res, out string
	}
	ch := make(chan rr, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			r, o := p.run(ctx, j.solver, j.text, secs)
			ch <- rr{j, r, o}
		}()
	}
	for range jobs {
		x := <-ch
		if x.res == "unsat" {
			cancel()
			return verdict{proved: true, solver: x.j.solver, secs: time.Since(t0).Seconds()}
		}
		if x.res == "sat" && strings.HasSuffix(x.j.solver, "-lin") {
			continue
		}
		if x.res == "sat" && !v.sat {
			v.sat = true
			v.out = x.out
			if q.qtext == "" {
				cancel()
				break
			}
		}
		if x.res == "sat" && x.j.text == q.qtext {
			v.out = x.out
			cancel()
			break
		}
	}
	v.secs = time.Since(t0).Seconds()
	return v
}

// decideAll runs the parts of one obligation; the first failure ends it.
func (p *Prover) decideAll(qs []*Query, secs int) verdict {
	if len(qs) == 0 {
		return verdict{}
	}
	t0 := time.Now()
	var mu sync.Mutex
	out := verdict{proved: true, solver: "simplifier"}
	var wg sync.WaitGroup
	for _, q := range qs {
		q := q
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			stop := !out.proved
			mu.Unlock()
			if stop {
				return
			}
			v := p.decide(q, secs)
			mu.Lock()
			defer mu.Unlock()
			if !v.proved {
				if out.proved {
					out = v
				}
			} else if v.solver != "simplifier" && out.proved {
				out.solver = v.solver
			}
		}()
	}
	wg.Wait()
	out.secs = time.Since(t0).Seconds()
	return out
}
