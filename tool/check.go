package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct {
	prop, target, desc string
}

// known findings: "known: property=C01 target=pkg:name <what fails>"
func readFindings(f string) []finding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []finding
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known:") {
			continue
		}
		fl := strings.Fields(strings.TrimPrefix(ln, "known:"))
		var x finding
		var rest []string
		for _, w := range fl {
			switch {
			case strings.HasPrefix(w, "property="):
				x.prop = w[9:]
			case strings.HasPrefix(w, "target="):
				x.target = w[7:]
			default:
				rest = append(rest, w)
			}
		}
		x.desc = strings.Join(rest, " ")
		out = append(out, x)
	}
	return out
}

type outcome struct {
	c        *Contract
	res      *ContractResult
	attempts []string
	native   *nativeReport
	bounded  bool
}

// alternative placements of hand-written invariants when a loop no longer is
// where (or named as) the contract expects.
func (p *Program) reassign(ex *Exec) func(fr *Frame, L *Loop) (loopAssign, bool) {
	type grp struct {
		c *Contract
		n int
	}
	return func(fr *Frame, L *Loop) (loopAssign, bool) {
		var cand []grp
		add := func(c *Contract, n int) {
			for _, g := range cand {
				if g.c == c && g.n == n {
					return
				}
			}
			cand = append(cand, grp{c, n})
		}
		groups := func(c *Contract) []int {
			set := map[int]bool{}
			for _, i := range c.invs {
				set[i.loop] = true
			}
			var out []int
			for i := range set {
				out = append(out, i)
			}
			sort.Ints(out)
			return out
		}
		if c := p.byFn[fr.fn]; c != nil {
			add(c, L.ord)
			for _, n := range groups(c) {
				add(c, n)
			}
		}
		if ex.root != nil {
			for _, n := range groups(ex.root) {
				add(ex.root, n)
			}
		}
		for f := fr.caller; f != nil; f = f.caller {
			if c := p.byFn[f.fn]; c != nil {
				for _, n := range groups(c) {
					add(c, n)
				}
			}
		}
		for _, c := range p.sorted() {
			if c.missing {
				for _, n := range groups(c) {
					add(c, n)
				}
			}
		}
		for _, g := range cand {
			var a loopAssign
			for _, i := range g.c.invs {
				if i.loop == g.n {
					a.invs = append(a.invs, i)
				}
			}
			if len(a.invs) == 0 {
				continue
			}
			ok := true
			st := fr.entry
			for _, i := range a.invs {
				for _, prm := range i.fn.Params {
					if !ex.bindable(fr, L, prm.Name(), prm.Type()) {
						ok = false
					}
				}
			}
			_ = st
			for _, d := range g.c.decs {
				if d.loop == g.n {
					good := true
					for _, prm := range d.fn.Params {
						if !ex.bindable(fr, L, prm.Name(), prm.Type()) {
							good = false
						}
					}
					if good {
						a.dec = d
					}
				}
			}
			if ok {
				return a, true
			}
		}
		return loopAssign{}, true
	}
}

// bindable: could a clause parameter be bound at this loop?
func (ex *Exec) bindable(fr *Frame, L *Loop, name string, t types.Type) bool {
	name = strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(name, "old_"), "pre_"), "now_")
	n := 0
	for l := L; l != nil; l = l.parent {
		for _, p := range phisOf(l.header) {
			if types.Identical(p.Type(), t) {
				if p.Comment == name {
					return true
				}
				n++
			}
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			if nm, ty, ok := debugName(ins); ok && types.Identical(ty, t) {
				if nm == name {
					return true
				}
			}
		}
	}
	for f := fr; f != nil; f = f.caller {
		for _, p := range f.fn.Params {
			if p.Name() == name && types.Identical(p.Type(), t) {
				return true
			}
		}
	}
	return n == 1
}

func (p *Program) sorted() []*Contract {
	var ids []string
	for id := range p.contracts {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []*Contract
	for _, id := range ids {
		out = append(out, p.contracts[id])
	}
	return out
}

func hasProp(c *Contract, prop string) bool {
	for _, q := range c.props {
		if q == prop {
			return true
		}
	}
	return false
}

type checker struct {
	p      *Program
	pr     *Prover
	prop   string
	tier   string
	seed   uint64
	work   string
	cdir   string
	bins   map[string]*nativeBin
	binWg  map[string]*sync.WaitGroup
	t0     time.Time
	budget time.Duration
	outs   []*outcome
	assume map[string]bool
}

func (k *checker) left() time.Duration { return k.budget - time.Since(k.t0) }

func checkMain(prop, tier string) int {
	t0 := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseUint(s, 10, 64)
	}
	cdir := filepath.Join(verifDir, "contracts")
	p, err := loadProgram(repoDir, cdir, allShorts())
	evf := filepath.Join(verifDir, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evf), 0o755)
	rdir := filepath.Join(verifDir, "replays")
	os.MkdirAll(rdir, 0o755)
	if err != nil {
		// the tree does not load under the contracts at all
		f := filepath.Join(rdir, prop+".json")
		writeJSON(f, map[string]interface{}{"property": prop, "obligation": "contracts bind to the current tree", "detail": err.Error()})
		fmt.Printf("contracts cannot be loaded: %v\n", err)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
		writeJSON(evf, map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof",
			"coverage": map[string]interface{}{"obligations": 0, "discharged": 0, "checker_cmd": "verif check " + prop, "trusted_base": []string{}},
			"wall_s":   time.Since(t0).Seconds(), "assumptions": []string{}, "violations": 1})
		return 1
	}
	work, err := os.MkdirTemp("", "vcwork")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	k := &checker{p: p, pr: NewProver(work), prop: prop, tier: tier, seed: seed, work: work, cdir: cdir,
		bins: map[string]*nativeBin{}, binWg: map[string]*sync.WaitGroup{}, t0: t0, budget: 780 * time.Second, assume: map[string]bool{}}
	return k.run(evf, rdir)
}

func writeJSON(f string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
}

// closure of contracts relied on through modular calls
func (k *checker) selectContracts() []*Contract {
	var cs []*Contract
	for _, c := range k.p.sorted() {
		if hasProp(c, k.prop) {
			cs = append(cs, c)
		}
	}
	return cs
}

func (k *checker) run(evf, rdir string) int {
	cs := k.selectContracts()
	var todo []*Contract
	var missing []string
	for _, c := range cs {
		if c.missing {
			missing = append(missing, c.id())
			continue
		}
		todo = append(todo, c)
	}
	// native harness builds alongside
	shorts := map[string]bool{}
	for _, c := range todo {
		shorts[c.pkg] = true
	}
	var bwg sync.WaitGroup
	var bmu sync.Mutex
	for s := range shorts {
		s := s
		bwg.Add(1)
		go func() {
			defer bwg.Done()
			nb := k.p.buildNative(k.work, k.cdir, s, todo)
			bmu.Lock()
			k.bins[s] = nb
			bmu.Unlock()
		}()
	}
	timeout := 20
	if k.tier == "thorough" {
		timeout = 60
	}
	seen := map[*Contract]bool{}
	var mu sync.Mutex
	var outs []*outcome
	var runSet func(set []*Contract)
	runSet = func(set []*Contract) {
		var wg sync.WaitGroup
		for _, c := range set {
			if seen[c] {
				continue
			}
			seen[c] = true
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := k.proveContract(c, timeout)
				mu.Lock()
				outs = append(outs, o)
				mu.Unlock()
			}()
		}
		wg.Wait()
		var next []*Contract
		for _, o := range outs {
			for _, id := range o.res.modular {
				if c := k.p.contracts[id]; c != nil && !seen[c] && !c.trusted {
					next = append(next, c)
				}
			}
		}
		if len(next) > 0 {
			runSet(next)
		}
	}
	runSet(todo)
	bwg.Wait()
	sort.Slice(outs, func(i, j int) bool { return outs[i].c.id() < outs[j].c.id() })
	k.outs = outs

	// cross-check every contract natively; failing ones get more time and the
	// solver's counterexamples
	var nativeTrials, nativeUsed int
	failing := map[string]bool{}
	var nerr []string
	for s := range shorts {
		nb := k.bins[s]
		if nb == nil || nb.err != nil {
			if nb != nil {
				nerr = append(nerr, nb.err.Error())
			}
			continue
		}
		var quiet, loud, sampled []string
		for _, o := range outs {
			if o.c.pkg != s || !nb.have[o.c.id()] {
				continue
			}
			if o.c.sampled {
				sampled = append(sampled, o.c.id())
			} else if o.res.ok() {
				quiet = append(quiet, o.c.id())
			} else {
				loud = append(loud, o.c.id())
				failing[o.c.id()] = true
			}
		}
		merge := func(rs []nativeReport) {
			for i := range rs {
				r := rs[i]
				nativeTrials += r.Trials
				nativeUsed += r.Used
				for _, o := range outs {
					if o.c.id() == r.ID && r.Kind == "fail" && o.native == nil {
						o.native = &r
					}
				}
			}
		}
		ms := 12000 / (len(quiet) + 1)
		if k.tier == "thorough" {
			ms = 60000 / (len(quiet) + 1)
		}
		if ms > 2000 && k.tier != "thorough" {
			ms = 2000
		}
		if ms < 150 {
			ms = 150
		}
		// solver counterexamples first
		for _, id := range loud {
			for _, o := range outs {
				if o.c.id() != id || o.native != nil {
					continue
				}
				mods := o.res.models(k.pr, 8)
				if len(mods) > 0 {
					f := writeModels(k.work, id, mods)
					merge(nb.run(k.work, []string{id}, 0, 100, 1, f, ""))
				}
			}
		}
		var still []string
		for _, id := range loud {
			for _, o := range outs {
				if o.c.id() == id && o.native == nil {
					still = append(still, id)
				}
			}
		}
		if len(still) > 0 {
			per := 20000
			if len(still) > 4 {
				per = 80000 / len(still)
			}
			if per < 3000 {
				per = 3000
			}
			if lim := int(k.left().Milliseconds()/2) / len(still); per > lim {
				per = lim
			}
			merge(nb.run(k.work, still, k.seed+1000, per, 8, "", ""))
		}
		merge(nb.run(k.work, quiet, k.seed, ms, 4, "", ""))
		if n := len(sampled); n > 0 {
			per := 20000 / n
			if k.tier == "thorough" {
				per = 120000 / n
			}
			if per > 8000 && k.tier != "thorough" {
				per = 8000
			}
			merge(nb.run(k.work, sampled, k.seed, per, 8, "", ""))
		}
		// bounded unrolling for models where nothing was found yet
		for _, o := range outs {
			if o.c.pkg != s || o.res.ok() || o.native != nil || !nb.have[o.c.id()] || k.left() < 120*time.Second {
				continue
			}
			r := k.p.verify(k.pr, o.c, runOpts{timeout: 10, budget: 40 * time.Second, bmc: 5})
			if len(r.failed) > 0 {
				if mods := r.models(k.pr, 6); len(mods) > 0 {
					f := writeModels(k.work, o.c.id(), mods)
					merge(nb.run(k.work, []string{o.c.id()}, 0, 100, 1, f, ""))
				}
			}
		}
		// failures of any kind confirmed on an unproved contract may show on a
		// neighbour: give the whole property one more search
		open := false
		for _, o := range outs {
			if !o.res.ok() && o.native == nil {
				open = true
			}
		}
		if open && len(quiet) > 0 && k.left() > 150*time.Second {
			merge(nb.run(k.work, quiet, k.seed+77, 20000/len(quiet)+200, 8, "", ""))
		}
	}
	return k.report(evf, rdir, outs, missing, nerr, nativeTrials, nativeUsed)
}

func (k *checker) proveContract(c *Contract, timeout int) *outcome {
	o := &outcome{c: c}
	if c.trusted {
		o.res = &ContractResult{c: c, mode: c.mode, bySolver: map[string]int{}}
		return o
	}
	if c.sampled {
		o.bounded = true
		o.res = &ContractResult{c: c, mode: "run", bySolver: map[string]int{}, attempt: "executed on generated inputs (bounded stand-in)"}
		return o
	}
	bmc := c.bounded
	o.bounded = bmc > 0
	r := k.p.verify(k.pr, c, runOpts{timeout: timeout, budget: 100 * time.Second, bmc: bmc})
	r.attempt = "contracts as written"
	o.res = r
	o.attempts = append(o.attempts, r.attempt)
	if r.ok() || bmc > 0 || k.left() < 300*time.Second {
		return o
	}
	if onlyDefinite(r) {
		return o
	}
	// second attempt: invariants matched to the loops they fit
	r2 := k.p.verify(k.pr, c, runOpts{timeout: timeout, budget: 100 * time.Second, assign: k.p.reassign, guess: true})
	r2.attempt = "invariants rematched to the current loops"
	o.attempts = append(o.attempts, r2.attempt)
	if r2.ok() {
		o.res = r2
		return o
	}
	if k.left() > 300*time.Second && len(c.invs) > 0 {
		r3 := k.p.verify(k.pr, c, runOpts{timeout: timeout, budget: 100 * time.Second, assign: func(ex *Exec) func(fr *Frame, L *Loop) (loopAssign, bool) {
			return func(fr *Frame, L *Loop) (loopAssign, bool) { return loopAssign{}, true }
		}})
		r3.attempt = "inferred invariants only"
		o.attempts = append(o.attempts, r3.attempt)
		if r3.ok() {
			o.res = r3
			return o
		}
	}
	return o
}

// onlyDefinite: straight-line code whose failure is a real counterexample.
func onlyDefinite(r *ContractResult) bool {
	return r.unsup == "" && r.loopsU == 0 && r.loopsA == 0
}

func (k *checker) report(evf, rdir string, outs []*outcome, missing, nerr []string, trials, used int) int {
	var obl, dis int
	by := map[string]int{}
	assume := map[string]bool{}
	var fns, inl []string
	inlSet := map[string]bool{}
	var viol []string
	lines := []string{}
	known := readFindings(filepath.Join(verifDir, "known_findings.txt"))
	isKnown := func(c *Contract) *finding {
		for i := range known {
			if known[i].prop == k.prop && known[i].target == c.id() {
				return &known[i]
			}
		}
		return nil
	}
	exit := 0
	nrep := 0
	alarm := func(id, what string, rep map[string]interface{}, input bool) {
		nrep++
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", k.prop, nrep))
		rep["property"] = k.prop
		writeJSON(f, rep)
		suffix := ""
		if !input {
			suffix = " no-failing-input-found"
		}
		lines = append(lines, fmt.Sprintf("%s: %s", id, what))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s%s", k.prop, f, suffix))
		viol = append(viol, id+": "+what)
		exit = 1
	}
	var bounded, proofs int
	var solverSecs float64
	var perFn []map[string]interface{}
	inputFound := false
	for _, o := range outs {
		if o.native != nil && isKnown(o.c) == nil {
			inputFound = true
		}
	}
	for _, o := range outs {
		r := o.res
		obl += r.proved + len(r.failed)
		dis += r.proved
		for s, n := range r.bySolver {
			by[s] += n
		}
		for _, n := range r.notes {
			assume[n] = true
		}
		for _, n := range o.c.assumes {
			assume[o.c.key+": "+n] = true
		}
		if o.c.trusted {
			assume["trusted contract (not verified): "+o.c.id()] = true
		}
		if o.c.overflow == "ignore" {
			assume["64-bit integer arithmetic treated as mathematical in "+o.c.id()] = true
		}
		if o.bounded {
			bounded++
			if o.c.sampled {
				assume["BOUNDED, not proved: "+o.c.id()+" is only executed on generated inputs against its contract"] = true
			} else {
				assume[fmt.Sprintf("BOUNDED, not proved: %s with loops unrolled %d times", o.c.id(), o.c.bounded)] = true
			}
		} else {
			proofs++
		}
		kind := "function"
		if o.c.lemma {
			kind = "lemma"
		}
		fns = append(fns, o.c.id())
		for _, n := range r.inlined {
			if !inlSet[n] {
				inlSet[n] = true
				inl = append(inl, n)
			}
		}
		perFn = append(perFn, map[string]interface{}{"contract": o.c.id(), "kind": kind, "mode": r.mode, "obligations": r.proved + len(r.failed),
			"discharged": r.proved, "loops_with_hand_invariants": r.loopsU, "loops_with_inferred_invariants": r.loopsA, "loops_unrolled_statically": r.loopsN,
			"attempt": r.attempt, "seconds": r.secs, "reachability_covers": r.covers, "bounded": o.bounded})
		kf := isKnown(o.c)
		fail := !r.ok() || o.native != nil
		if !fail {
			continue
		}
		if kf != nil {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", k.prop, kf.desc))
			continue
		}
		rep := map[string]interface{}{"contract": o.c.id(), "attempts": o.attempts}
		var what string
		var fo []map[string]interface{}
		for _, ob := range r.failed {
			fo = append(fo, map[string]interface{}{"obligation": ob.name, "kind": ob.kind, "function": ob.fn,
				"at": fmt.Sprintf("%s:%d", shortPath(ob.pos.Filename), ob.pos.Line), "verdict": ob.status, "goal": show(ob.goal)})
		}
		rep["failed_obligations"] = fo
		if r.unsup != "" {
			rep["unsupported"] = r.unsup
		}
		if r.vacuous != "" {
			rep["vacuous"] = r.vacuous
		}
		switch {
		case o.native != nil:
			what = fmt.Sprintf("fails on the real code: %s with %s", o.native.Detail, o.native.Input)
			rep["failing_clause"] = o.native.Detail
			rep["input"] = o.native.Input
			rep["seed"] = o.native.Seed
			rep["from_solver_model"] = o.native.Model
			if o.native.Model {
				rep["model_args"] = o.native.Args
			}
			rep["rerun"] = "bash /verif/run.sh replay " + filepath.Join(rdir, fmt.Sprintf("%s-%d.json", k.prop, nrep+1))
		case r.unsup != "":
			what = "obligations could not be generated: " + r.unsup
		case r.vacuous != "":
			what = "vacuous: " + r.vacuous
		default:
			what = fmt.Sprintf("%d obligation(s) not discharged, first: %s (%s:%d)", len(r.failed), r.failed[0].name, shortPath(r.failed[0].pos.Filename), r.failed[0].pos.Line)
		}
		if o.native == nil && inputFound {
			// a concrete failure of this property is reported already
			lines = append(lines, o.c.id()+": "+what)
			viol = append(viol, o.c.id()+": "+what)
			exit = 1
			continue
		}
		alarm(o.c.id(), what, rep, o.native != nil)
	}
	for _, m := range missing {
		assume["contract target not present in this tree, checked only through its callers: "+m] = true
	}
	if len(outs) == 0 || obl == 0 && (proofs > 0 || used == 0) {
		alarm("contracts", "no obligation was generated for this property", map[string]interface{}{"missing": missing, "dropped": k.p.dropped, "errors": k.p.loadErrs}, false)
	} else if len(k.p.dropped) > 0 {
		// contract files that no longer type-check
		rel := false
		for _, d := range k.p.dropped {
			b, _ := os.ReadFile(d)
			if strings.Contains(string(b), k.prop) {
				rel = true
			}
		}
		if rel {
			if exit == 0 {
				alarm("contracts", "contract file does not type-check against the current tree", map[string]interface{}{"dropped": k.p.dropped, "errors": k.p.loadErrs}, false)
			}
		}
	}
	for _, e := range nerr {
		assume["native cross-check unavailable: "+firstLine(e)] = true
	}
	k.pr.mu.Lock()
	sol := map[string]interface{}{}
	for s, x := range k.pr.stats {
		sol[s] = map[string]interface{}{"queries": x.calls, "unsat": x.proved, "seconds": round2(x.time)}
		solverSecs += x.time
	}
	k.pr.mu.Unlock()
	assume["the Go compiler, go/ssa lowering, this verification condition generator and the SMT solvers are trusted"] = true
	assume["distinct slice and pointer parameters of a function under contract do not alias unless the contract says so"] = true
	assume["specification-side integer arithmetic is mathematical; code-side int overflow is an obligation"] = true
	assume["slice lengths and capacities are at most 2^47"] = true
	var as []string
	for a := range assume {
		as = append(as, a)
	}
	sort.Strings(as)
	sort.Strings(inl)
	level := "proof"
	if bounded > 0 && proofs == 0 {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": k.prop, "tier": k.tier, "seed": k.seed, "level": level,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis,
			"checker_cmd":              fmt.Sprintf("bash /verif/run.sh check %s %s", k.prop, k.tier),
			"trusted_base":             []string{"go 1.27.3 front end and golang.org/x/tools/go/ssa v0.52.0", "/verif/tool (verification condition generator)", "z3 4.8.12", "z3 5.3.2", "cvc5 1.1.2"},
			"functions_under_contract": fns, "functions_executed_from_source": inl, "per_contract": perFn,
			"backends": by, "solver_processes": sol, "solver_seconds": round2(solverSecs),
			"bounded_contracts": bounded, "proved_contracts": proofs,
			"native_cross_check": map[string]interface{}{"random_inputs_tried": trials, "inputs_satisfying_preconditions": used},
		},
		"wall_s": round2(time.Since(k.t0).Seconds()), "assumptions": as, "violations": len(viol),
	}
	if viol != nil {
		ev["coverage"].(map[string]interface{})["violation_details"] = viol
	}
	if level == "exploration" {
		cov := ev["coverage"].(map[string]interface{})
		cov["evaluations"] = trials
		cov["distinct_nontrivial"] = used
		cov["rule"] = "inputs are generated from the seed by the contract's argument generators; one counts when it satisfies the preconditions (repeats are not removed)"
		cov["samples"] = fns
	}
	writeJSON(evf, ev)
	for _, o := range outs {
		fmt.Println(o.res.summary())
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %d native inputs, %.1fs\n", k.prop, len(outs), dis, obl, used, time.Since(k.t0).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
