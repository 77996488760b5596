package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func timeoutCtx(s int) context.Context {
	c, _ := context.WithTimeout(context.Background(), time.Duration(s)*time.Second)
	return c
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

var repoDir = "/repo"
var verifDir = "/verif"

func allShorts() []string { return []string{"ansi", "anansi", "platform", "terminfo"} }

func main() {
	if v := os.Getenv("VC_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VC_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fatal("usage: verif check PROP [quick|thorough] | dev PATTERN")
	}
	if f := os.Getenv("VC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(45 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			os.Exit(9)
		}()
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "native":
		devNative(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func shortsFor(pats []string) []string {
	set := map[string]bool{}
	for _, p := range pats {
		if i := strings.Index(p, ":"); i > 0 {
			set[p[:i]] = true
		} else {
			return allShorts()
		}
	}
	var out []string
	for _, s := range allShorts() {
		if set[s] {
			out = append(out, s)
		}
	}
	return out
}

// dev verifies the contracts whose id contains one of the patterns.
func dev(pats []string) {
	t0 := time.Now()
	p, err := loadProgram(repoDir, filepath.Join(verifDir, "contracts"), shortsFor(pats))
	if err != nil {
		fatal("load: %v", err)
	}
	if len(p.dropped) > 0 {
		fmt.Println("DROPPED:", p.dropped, p.loadErrs)
	}
	for _, e := range p.loadErrs {
		fmt.Println(e)
	}
	fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(t0).Seconds(), len(p.contracts))
	dir, _ := os.MkdirTemp("", "vcq")
	if os.Getenv("VC_DEBUG") == "" {
		defer os.RemoveAll(dir)
	} else {
		fmt.Println("queries in", dir)
	}
	pr := NewProver(dir)
	var ids []string
	for id := range p.contracts {
		ids = append(ids, id)
	}
	sortStrings(ids)
	for _, id := range ids {
		c := p.contracts[id]
		hit := len(pats) == 0
		for _, s := range pats {
			if strings.HasSuffix(s, "$") && strings.HasSuffix(id, strings.TrimSuffix(s, "$")) || strings.Contains(id, s) {
				hit = true
			}
			for _, pp := range c.props {
				if pp == s {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		if c.missing {
			fmt.Println(id, "MISSING TARGET")
			continue
		}
		r := p.verify(pr, c, runOpts{timeout: 20, budget: 60 * time.Second})
		fmt.Println(r.summary())
		if os.Getenv("VC_MODELS") != "" && len(r.failed) > 0 {
			for _, m := range r.models(pr, 3) {
				b, _ := json.Marshal(m)
				fmt.Println("      model:", string(b))
			}
			for i, f := range r.failed {
				if i < 2 {
					s := show(f.goal)
					if len(s) > 1500 {
						s = s[:1500]
					}
					fmt.Println("      goal:", s)
				}
			}
		}
		if os.Getenv("VC_SLOW") != "" {
			type row struct {
				d float64
				s string
			}
			var rows []row
			for _, o := range r.all {
				if o.time > 1 {
					rows = append(rows, row{o.time, fmt.Sprintf("%5.1fs %s %s %s [%d]", o.time, o.solver, o.kind, o.name, o.goal.size)})
				}
			}
			sort.Slice(rows, func(i, j int) bool { return rows[i].d > rows[j].d })
			for i, w := range rows {
				if i < 40 {
					fmt.Println("   ", w.s)
				}
			}
			fmt.Println("    obligations over a second:", len(rows))
		}
		if os.Getenv("VC_NOTES") != "" {
			for _, n := range r.notes {
				fmt.Println("      note:", n)
			}
			fmt.Println("      inlined:", r.inlined)
		}
	}
}

// devNative runs the replay harness: native MS TARGET...
func devNative(a []string) {
	ms := 1000
	fmt.Sscan(a[0], &ms)
	cdir := filepath.Join(verifDir, "contracts")
	p, err := loadProgram(repoDir, cdir, allShorts())
	if err != nil {
		fatal("load: %v", err)
	}
	work, _ := os.MkdirTemp("", "vcn")
	defer os.RemoveAll(work)
	for _, s := range allShorts() {
		var cs []*Contract
		var ids []string
		for _, c := range p.sorted() {
			if c.pkg != s || c.missing {
				continue
			}
			hit := len(a) == 1
			for _, x := range a[1:] {
				if strings.Contains(c.id(), x) || hasProp(c, x) {
					hit = true
				}
			}
			if hit {
				cs = append(cs, c)
				ids = append(ids, c.id())
			}
		}
		if len(cs) == 0 {
			continue
		}
		nb := p.buildNative(work, cdir, s, cs)
		if nb.err != nil {
			fmt.Println(nb.err)
			continue
		}
		for _, r := range nb.run(work, ids, 1, ms, 4, "", "") {
			fmt.Printf("%-40s %s trials=%d used=%d %s %s\n", r.ID, r.Kind, r.Trials, r.Used, r.Detail, r.Input)
		}
	}
}

// replayMain reruns one recorded failing input against the current tree:
// replay FILE.json
func replayMain(a []string) int {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fatal("%v", err)
	}
	var rep struct {
		Contract string
		Seed     uint64
		Clause   string          `json:"failing_clause"`
		Input    string          `json:"input"`
		Model    json.RawMessage `json:"model_args"`
	}
	json.Unmarshal(b, &rep)
	fmt.Println(string(b))
	if rep.Contract == "" || rep.Clause == "" {
		return 1
	}
	cdir := filepath.Join(verifDir, "contracts")
	p, err := loadProgram(repoDir, cdir, allShorts())
	if err != nil {
		fatal("load: %v", err)
	}
	c := p.contracts[rep.Contract]
	if c == nil || c.missing {
		fatal("no such contract: %s", rep.Contract)
	}
	work, _ := os.MkdirTemp("", "vcr")
	defer os.RemoveAll(work)
	nb := p.buildNative(work, cdir, c.pkg, []*Contract{c})
	model, one := "", fmt.Sprint(rep.Seed)
	if len(rep.Model) > 0 {
		model = filepath.Join(work, "model.json")
		m, _ := json.Marshal(map[string][]json.RawMessage{rep.Contract: {rep.Model}})
		os.WriteFile(model, m, 0o644)
	}
	bad := 0
	for _, r := range nb.run(work, []string{rep.Contract}, 0, 100, 1, model, one) {
		fmt.Printf("rerun: %s %s with %s\n", r.Kind, r.Detail, r.Input)
		if r.Kind == "fail" {
			bad = 1
		}
	}
	return bad
}
