package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ContractResult struct {
	c                      *Contract
	mode                   string
	obls                   []*Obligation
	unsup                  string
	vacuous                string
	notes                  []string
	inlined                []string
	modular                []string
	trivial                int
	loopsU, loopsA, loopsN int
	proved                 int
	failed                 []*Obligation
	all                    []*Obligation // as decided
	bySolver               map[string]int
	secs                   float64
	attempt                string
	ex                     *Exec
	covers                 int
	subs                   []*ContractResult // per case
}

func (r *ContractResult) ok() bool { return r.unsup == "" && len(r.failed) == 0 && r.vacuous == "" }

type runOpts struct {
	timeout int
	budget  time.Duration
	renames map[string]string
	bmc     int
	assign  func(ex *Exec) func(fr *Frame, L *Loop) (loopAssign, bool)
	guess   bool
	noProve bool
	cas     int // one-based case, 0 when the contract has none
}

// symbolic execution of one contract: fills ex.obls.
func (ex *Exec) runContract(c *Contract, cas int) (final *State, err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u.msg
				if os.Getenv("VC_STACK") != "" {
					debug.PrintStack()
				}
				return
			}
			err = fmt.Sprintf("internal error: %v", r)
			if os.Getenv("VC_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	ex.root = c
	if c.overflow == "ignore" {
		ex.overflow = false
	}
	st := ex.baseState(c.pkg)
	fn := c.fn
	var args, bind []Val
	for _, p := range fn.Params {
		v := ex.paramVal(st, p.Name(), p.Type(), 0)
		args = append(args, v)
		ex.paramInfo = append(ex.paramInfo, paramInfo{p.Name(), p.Type(), v})
	}
	for _, p := range fn.FreeVars {
		v := ex.paramVal(st, p.Name(), p.Type(), 0)
		if pv, ok := v.(*PtrVal); ok && len(pv.alts) == 2 {
			// captured variables are never nil
			v = &PtrVal{alts: []PtrAlt{{g: True, loc: pv.alts[1].loc}}}
		}
		bind = append(bind, v)
		ex.paramInfo = append(ex.paramInfo, paramInfo{p.Name(), p.Type(), v})
	}
	// parameters used only by clauses are free variables of the contract
	entry := st.clone()
	ex.entrySt = entry
	ex.rootArgs = args
	for _, r := range c.requires {
		t := ex.evalClause(st, r, fn, args, entry, nil)
		ex.assume(st, t)
	}
	if cas > 0 {
		ex.prune = true
		for i, k := range c.cases {
			t := ex.evalClause(st, k, fn, args, entry, nil)
			if i == cas-1 {
				ex.assume(st, t)
				break
			}
			ex.assume(st, Not(t))
		}
	}
	ex.covers = append(ex.covers, st.pc)
	fin, ret := ex.runFunc(st, fn, args, bind, nil)
	if fin == nil {
		if c.panics == nil && len(c.ensures) > 0 {
			return nil, "function never returns"
		}
		return nil, ""
	}
	ex.covers = append(ex.covers, fin.pc)
	if c.panics != nil {
		ex.oblige(fin, "panics", "returns only when no panic is specified", fn.Pos(), Not(ex.rootPanics()))
	}
	for _, e := range c.ensures {
		t := ex.evalClause(fin, e, fn, args, entry, ret)
		n := len(ex.obls)
		ex.oblige(fin, "ensures", shortFn(fn)+" "+e.name, fn.Pos(), t)
		for _, o := range ex.obls[n:] {
			o.clause = e.name
		}
	}
	if c.modular {
		ex.frameObligations(fin, entry, c, fn, args, fn.Pos())
	}
	return fin, ""
}

var termMu sync.Mutex

func (p *Program) verify(pr *Prover, c *Contract, o runOpts) *ContractResult {
	if len(c.cases) == 0 {
		return p.verifyOne(pr, c, o)
	}
	t0 := time.Now()
	n := len(c.cases) + 1
	subs := make([]*ContractResult, n)
	var wg sync.WaitGroup
	for i := range subs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			oc := o
			oc.cas = i + 1
			subs[i] = p.verifyOne(pr, c, oc)
		}()
	}
	wg.Wait()
	res := &ContractResult{c: c, mode: c.mode, bySolver: map[string]int{}, subs: subs}
	uniq := func(a, b []string) []string {
		for _, x := range b {
			found := false
			for _, y := range a {
				found = found || x == y
			}
			if !found {
				a = append(a, x)
			}
		}
		return a
	}
	for i, r := range subs {
		name := "otherwise"
		if i < len(c.cases) {
			name = c.cases[i].name
		}
		res.ex = r.ex
		res.obls = append(res.obls, r.obls...)
		res.notes = uniq(res.notes, r.notes)
		res.inlined = uniq(res.inlined, r.inlined)
		res.modular = uniq(res.modular, r.modular)
		res.trivial += r.trivial
		res.proved += r.proved
		res.covers += r.covers
		if r.loopsU > res.loopsU {
			res.loopsU = r.loopsU
		}
		if r.loopsA > res.loopsA {
			res.loopsA = r.loopsA
		}
		if r.loopsN > res.loopsN {
			res.loopsN = r.loopsN
		}
		for k, v := range r.bySolver {
			res.bySolver[k] += v
		}
		if r.unsup != "" && res.unsup == "" {
			res.unsup = r.unsup + " (case " + name + ")"
		}
		// an empty case is fine, unless it is the whole contract
		if r.vacuous != "" && i < len(c.cases) {
			res.vacuous = r.vacuous + " (case " + name + ")"
		}
		for _, o := range r.failed {
			o.name += " [" + name + "]"
			res.failed = append(res.failed, o)
		}
	}
	res.secs = time.Since(t0).Seconds()
	return res
}

func (p *Program) verifyOne(pr *Prover, c *Contract, o runOpts) *ContractResult {
	t0 := time.Now()
	mode := c.mode
	res := &ContractResult{c: c, mode: mode, bySolver: map[string]int{}}
	termMu.Lock()
	ex := NewExec(p, mode)
	ex.prover = pr
	ex.renames = o.renames
	if o.assign != nil {
		ex.invAssign = o.assign(ex)
	}
	if o.guess {
		ex.guess = ex.guessByType
	}
	if o.bmc > 0 {
		ex.bmc = true
		ex.unroll = o.bmc
	}
	if o.budget > 0 {
		end := time.Now().Add(o.budget)
		ex.deadline = func() bool { return time.Now().After(end) }
		ex.hardEnd = end.Add(o.budget / 2)
	}
	triv0 := p.trivial
	_, err := ex.runContract(c, o.cas)
	res.ex = ex
	res.unsup = err
	res.trivial = p.trivial - triv0
	for n := range ex.notes {
		res.notes = append(res.notes, n)
	}
	for n := range ex.inlined {
		res.inlined = append(res.inlined, n)
	}
	for n := range ex.modular {
		res.modular = append(res.modular, n)
	}
	sort.Strings(res.notes)
	sort.Strings(res.inlined)
	sort.Strings(res.modular)
	res.loopsU, res.loopsA, res.loopsN = ex.loopsUser, ex.loopsAuto, ex.loopsUnrolled
	res.obls = ex.obls
	if err != "" || o.noProve {
		termMu.Unlock()
		res.secs = time.Since(t0).Seconds()
		return res
	}
	// one query per obligation
	secs := o.timeout
	if c.timeout > secs {
		secs = c.timeout
	}
	type item struct {
		o *Obligation
		q *Query
	}
	var items []item
	for _, ob := range ex.obls {
		for _, g := range splitGoal(ob.goal, splitMax) {
			so := *ob
			so.goal = g
			if g == True || ob.pc == False {
				res.proved++
				res.bySolver["simplifier"]++
				continue
			}
			q := ex.build(ex.allAssumes(ob.nAss), ob.pc, g, 3, nil)
			if q.trivial {
				res.proved++
				res.bySolver["simplifier"]++
				continue
			}
			oo := so
			items = append(items, item{&oo, q})
		}
	}
	termMu.Unlock()
	// identical queries are decided once
	byText := map[string][]int{}
	var order []string
	for i, it := range items {
		if byText[it.q.text] == nil {
			order = append(order, it.q.text)
		}
		byText[it.q.text] = append(byText[it.q.text], i)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, k := range order {
		idx := byText[k]
		it := items[idx[0]]
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := pr.decide(it.q, secs)
			mu.Lock()
			defer mu.Unlock()
			for _, i := range idx {
				ob := items[i].o
				res.all = append(res.all, ob)
				ob.solver = v.solver
				ob.time = v.secs
				switch {
				case v.proved:
					ob.status = "proved"
					res.proved++
					res.bySolver[v.solver]++
				case v.sat:
					ob.status = "sat"
					res.failed = append(res.failed, ob)
				default:
					ob.status = "unknown"
					res.failed = append(res.failed, ob)
				}
			}
		}()
	}
	wg.Wait()
	// what is left is tried again with more instances of its hypotheses
	if n := len(res.failed); n > 0 && n <= 8 && o.bmc == 0 && !o.guess {
		todo := res.failed
		res.failed = nil
		qs := make([]*Query, n)
		parts := make([][]*Query, n)
		termMu.Lock()
		for i, ob := range todo {
			qs[i] = ex.buildN(ex.allAssumes(ob.nAss), ob.pc, ob.goal, 3, nil, 3)
			if gs := splitGoal(ob.goal, 160); len(gs) > 1 {
				for _, g := range gs {
					parts[i] = append(parts[i], ex.build(ex.allAssumes(ob.nAss), ob.pc, g, 3, nil))
				}
			}
			if d := os.Getenv("VC_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/q%d-%d-%s.smt2", d, o.cas, i, ob.clause), []byte(qs[i].text), 0o644)
				os.WriteFile(fmt.Sprintf("%s/q%d-%d-%s.forall.smt2", d, o.cas, i, ob.clause), []byte(qs[i].qtext), 0o644)
			}
		}
		termMu.Unlock()
		for i, ob := range todo {
			i, ob := i, ob
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := pr.decideAll(parts[i], secs)
				if !v.proved && qs[i].qtext != "" {
					v = pr.decide(qs[i], secs)
				}
				mu.Lock()
				defer mu.Unlock()
				ob.time += v.secs
				if v.proved {
					ob.status, ob.solver = "proved", v.solver
					res.proved++
					res.bySolver[v.solver]++
				} else {
					if !v.sat {
						ob.status = "unknown"
					}
					res.failed = append(res.failed, ob)
				}
			}()
		}
		wg.Wait()
	}
	sort.SliceStable(res.failed, func(i, j int) bool { return res.failed[i].name < res.failed[j].name })
	// vacuity: every cover point must be satisfiable together with everything assumed
	if len(res.failed) == 0 && o.bmc == 0 {
		termMu.Lock()
		var qs []*Query
		for _, cv := range dedupe(ex.covers) {
			if cv == False {
				continue
			}
			qs = append(qs, ex.build(ex.allAssumes(-1), cv, False, 1, nil))
		}
		termMu.Unlock()
		res.covers = len(qs)
		vac := make([]bool, len(qs))
		for i, q := range qs {
			i, q := i, q
			if q.trivial {
				vac[i] = true
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, _ := pr.run(timeoutCtx(6), "z3-new", q.text, 3)
				vac[i] = r == "unsat"
			}()
		}
		wg.Wait()
		nv := 0
		for _, v := range vac {
			if v {
				nv++
			}
		}
		// the entry cover (index 0) and the exit cover must be reachable
		if len(vac) > 0 && vac[0] {
			res.vacuous = "precondition unsatisfiable"
		} else if nv == len(vac) && nv > 0 {
			res.vacuous = "no execution reaches the postcondition"
		}
	}
	res.secs = time.Since(t0).Seconds()
	return res
}

// splitGoal splits conjunctive goals into separately decided parts.
var splitMax = 12

func splitGoal(g *Term, splitMax int) []*Term {
	out := []*Term{g}
	for round := 0; round < 12; round++ {
		var next []*Term
		ch := false
		for _, x := range out {
			ps := splitOnce(x)
			if len(ps) > 1 && len(out)+len(next)+len(ps) < splitMax {
				ch = true
				next = append(next, ps...)
			} else {
				next = append(next, x)
			}
		}
		out = next
		if !ch {
			break
		}
	}
	return out
}

func splitOnce(g *Term) []*Term {
	switch g.op {
	case OAnd:
		return g.args
	case OIte:
		if g.sort.kind == SBool {
			c, x, y := g.args[0], g.args[1], g.args[2]
			return []*Term{Or(Not(c), x), Or(c, y)}
		}
	case OOr:
		for i, a := range g.args {
			if a.op != OAnd && !(a.op == OIte && a.sort.kind == SBool) {
				continue
			}
			var rest []*Term
			rest = append(rest, g.args[:i]...)
			rest = append(rest, g.args[i+1:]...)
			// only split what reads as a conclusion: the other parts are the
			// negated hypotheses
			var out []*Term
			for _, p := range splitOnce(a) {
				out = append(out, Or(append([]*Term{p}, rest...)...))
			}
			return out
		}
	case ONot:
		if o := g.args[0]; o.op == OOr {
			var out []*Term
			for _, a := range o.args {
				out = append(out, Not(a))
			}
			return out
		}
	}
	return []*Term{g}
}

// guessByType binds a missing invariant variable to the only header value of
// its type.
func (ex *Exec) guessByType(fr *Frame, L *Loop, st *State, name string, t types.Type) (Val, bool) {
	var found Val
	n := 0
	for _, p := range phisOf(L.header) {
		if types.Identical(p.Type(), t) {
			if v, ok := st.vals[p]; ok {
				found = v
				n++
			}
		}
	}
	if n == 1 {
		return found, true
	}
	found, n = nil, 0
	seen := map[ssa.Value]bool{}
	for _, b := range ex.domOrder(fr.fn, L.header) {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.DebugRef); ok && !d.IsAddr && !seen[d.X] && types.Identical(d.X.Type(), t) {
				seen[d.X] = true
				if v, ok := ex.tryVal(st, d.X); ok {
					found = v
					n++
				}
			}
		}
	}
	if n == 1 {
		return found, true
	}
	return nil, false
}

func (r *ContractResult) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%-40s mode=%s obligations=%d proved=%d failed=%d trivial=%d loops(user/auto/unrolled)=%d/%d/%d %.1fs", r.c.id(), r.mode, r.proved+len(r.failed), r.proved, len(r.failed), r.trivial, r.loopsU, r.loopsA, r.loopsN, r.secs)
	if r.unsup != "" {
		fmt.Fprintf(&sb, "\n    UNSUPPORTED: %s", r.unsup)
	}
	if r.vacuous != "" {
		fmt.Fprintf(&sb, "\n    VACUOUS: %s", r.vacuous)
	}
	for _, o := range r.failed {
		fmt.Fprintf(&sb, "\n    FAILED [%s] %s: %s at %s:%d (in %s) %.1fs", o.status, o.kind, o.name, shortPath(o.pos.Filename), o.pos.Line, o.fn, o.time)
	}
	return sb.String()
}

func shortPath(s string) string {
	s = strings.TrimPrefix(s, "/repo/")
	return s
}
